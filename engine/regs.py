"""Functions registered with registerFunction: name, argument signature, return signature, callback, user data."""
import re
from refs import api_name


def registrations(M):
    out = []
    for F in M.funcs.values():
        if not any(d == 'VSPLUGINAPI*' for d in F.dtypes):
            continue
        for I in F.insts():
            if I['o'] in ('call', 'invoke') and isinstance(I['f'], int):
                if api_name(F, F.defs.get(I['f'])) == 'registerFunction':
                    a = I['a']
                    fn = a[3]
                    out.append({'name': M.string(a[0]), 'args': M.string(a[1]), 'ret': M.string(a[2]), 'fn': fn[1] if isinstance(fn, list) and fn[0] == 'g' else None,
                                'ud': a[4], 'loc': F.loc(I), 'in': F.sname})
    return out


TYPES = ('int', 'float', 'data', 'vnode', 'anode', 'vframe', 'aframe', 'func')


def parse_sig(s):
    """signature string -> list of (name, type, is_array, opt, empty) or None when malformed; 'any' flag"""
    out, anyf = [], False
    for part in s.split(';'):
        if part == '':
            continue
        if part == 'any':
            anyf = True
            continue
        f = part.split(':')
        if len(f) < 2 or not re.match(r'^[A-Za-z_][A-Za-z0-9_]*$', f[0]):
            return None, False
        t = f[1]
        arr = t.endswith('[]')
        t = t[:-2] if arr else t
        if t not in TYPES:
            return None, False
        opt = emp = False
        for x in f[2:]:
            if x == 'opt':
                opt = True
            elif x == 'empty':
                emp = True
            else:
                return None, False
        if emp and not arr:
            return None, False
        out.append((f[0], t, arr, opt, emp))
    return out, anyf


if __name__ == '__main__':
    import build
    from ir import Module
    n = 0
    for src, js in build.ir_files(build.filter_units()):
        M = Module(js)
        for r in registrations(M):
            n += 1
            print(r['name'], '|', (r['args'] or '?')[:60], '|', r['ret'], '|', (r['fn'] and M.funcs[r['fn']].sname if r['fn'] in M.funcs else r['fn']), r['ud'], r['loc'])
    print(n)
