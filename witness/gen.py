"""Writes the compile-time witnesses of the public interface from the headers of /repo (run once, when the interface was frozen; the
checks only compile what this wrote)."""
import json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
INC = '/repo/include/'


def ast(header, defs):
    src = '#include "%s"\n' % header
    r = subprocess.run(['clang++-18', '-std=c++20', '-fsyntax-only', '-x', 'c++', '-I' + INC] + defs + ['-Xclang', '-ast-dump=json', '-'], input=src.encode(), stdout=subprocess.PIPE, check=True)
    return json.loads(r.stdout)


def walk(n, file, out):
    for d in n.get('inner', ()):
        loc = d.get('loc', {})
        loc = loc.get('expansionLoc', loc)
        if 'file' in loc:
            file[0] = loc['file']
        if file[0] and file[0].startswith(INC):
            out.append((os.path.basename(file[0]), d))
        if d['kind'] == 'LinkageSpecDecl':
            walk(d, file, out)
    return out


def constval(d):
    for x in d.get('inner', ()):
        if x.get('kind') == 'ConstantExpr' and 'value' in x:
            return int(x['value'])
        v = constval(x)
        if v is not None:
            return v
    return None


def gen(name, header, defs, only, macros=()):
    L = ['// compiled by the check of C21 against the headers as they are; written by gen.py'] + ['#define %s' % d[2:].replace('=', ' ') for d in defs]
    L += ['#include <cstddef>', '#include <type_traits>', '#include "%s"' % header, '']
    probes = []
    for f, d in walk(ast(header, defs), [None], []):
        if f not in only:
            continue
        if d['kind'] == 'EnumDecl':
            last = -1
            for e in d.get('inner', ()):
                if e['kind'] != 'EnumConstantDecl':
                    continue
                v = constval(e)
                last = last + 1 if v is None else v
                L.append('static_assert(%s == %d, "%s: the value of %s is %d");' % (e['name'], last, f, e['name'], last))
            L.append('')
        elif d['kind'] == 'CXXRecordDecl' and d.get('completeDefinition'):
            n = d['name']
            for e in d.get('inner', ()):
                if e['kind'] == 'FieldDecl':
                    probes.append((f, n, e['name'], e['type']['qualType']))
        elif d['kind'] == 'TypedefDecl' and '(*)' in d['type']['qualType']:
            L.append('static_assert(std::is_same_v<%s, %s>, "%s: the type of %s");' % (d['name'], d['type']['qualType'], f, d['name']))
        elif d['kind'] == 'FunctionDecl' and not d.get('inline') and d.get('storageClass') != 'static':
            L.append('static_assert(std::is_same_v<decltype(&%s), %s>, "%s: the type of %s");' % (d['name'], d['type']['qualType'].replace('(', '(*)(', 1), f, d['name']))
    # offsets and sizes: let the compiler say
    head = '\n'.join(['#define %s' % d[2:].replace('=', ' ') for d in defs] + ['#include <cstddef>', '#include <cstdio>', '#include "%s"' % header])
    body = ''.join('printf("%%zu %%zu\\n", offsetof(%s, %s), sizeof(%s));' % (n, x, n) for f, n, x, t in probes)
    body += ''.join('printf("%%lld 0\\n", (long long)(%s));' % m for m in macros)
    exe = '/tmp/abi_probe'
    subprocess.run(['clang++-18', '-std=c++20', '-I' + INC, '-x', 'c++', '-', '-o', exe], input=(head + '\nint main() {' + body + '}\n').encode(), check=True)
    vals = [tuple(map(int, l.split())) for l in subprocess.check_output([exe]).decode().splitlines()]
    os.unlink(exe)
    sizes = {}
    for (f, n, x, t), (o, s) in zip(probes, vals):
        sizes[f, n] = s
        L.append('static_assert(offsetof(%s, %s) == %d, "%s: %s.%s is at offset %d");' % (n, x, o, f, n, x, o))
        t2 = t
        L.append('static_assert(std::is_same_v<decltype(%s::%s), %s>, "%s: the type of %s.%s");' % (n, x, t2, f, n, x))
    for (f, n), s in sizes.items():
        table = n in ('VSAPI', 'VSPLUGINAPI', 'VSSCRIPTAPI')
        L.append('static_assert(sizeof(%s) %s %d, "%s: the size of %s is %d");' % (n, '>=' if table else '==', s, f, n, s))
    for m, (v, _) in zip(macros, vals[len(probes):]):
        L.append('static_assert(%s == %d, "%s: the value of %s is %d");' % (m, v, header, m, v))
    open(os.path.join(HERE, name), 'w').write('\n'.join(L) + '\n')
    return [(n, x, o, t) for (f, n, x, t), (o, s) in zip(probes, vals)], sizes


def main():
    M4 = ['VAPOURSYNTH_API_MAJOR', 'VAPOURSYNTH_API_MINOR', 'VAPOURSYNTH_API_VERSION', 'VS_AUDIO_FRAME_SAMPLES']
    H = {'VapourSynth4.h', 'VSConstants4.h'}
    for tag, defs in (('40', []), ('41', ['-DVS_USE_API_41']), ('42', ['-DVS_USE_API_42']), ('42g', ['-DVS_USE_API_42', '-DVS_GRAPH_API'])):
        gen('api%s.cpp' % tag, 'VapourSynth4.h', defs, H, M4)
        gen('const%s.cpp' % tag, 'VSConstants4.h', defs, {'VSConstants4.h'}) if tag in ('40', '42') else None
    S = ['VSSCRIPT_API_MAJOR', 'VSSCRIPT_API_MINOR', 'VSSCRIPT_API_VERSION']
    for tag, defs in (('41', []), ('42', ['-DVSSCRIPT_USE_API_42']), ('43', ['-DVSSCRIPT_USE_API_43'])):
        gen('script%s.cpp' % tag, 'VSScript4.h', defs, {'VSScript4.h'}, S)
    off, sizes = gen('api3.cpp', 'VapourSynth.h', [], {'VapourSynth.h'}, ['VAPOURSYNTH_API_MAJOR', 'VAPOURSYNTH_API_MINOR', 'VAPOURSYNTH_API_VERSION'])
    # the copy of the old interface that the core is compiled with
    names = {'VSAPI': 'vs3::VSAPI3', 'VSFormat': 'vs3::VSVideoFormat', 'VSCoreInfo': '::VSCoreInfo', 'VSVideoInfo': 'vs3::VSVideoInfo'}
    L = ['// compiled by the check of C21 against the headers as they are; written by gen.py', '#define VS_USE_LATEST_API', '#define VS_GRAPH_API', '#include <cstddef>', '#include <type_traits>', '#include "VapourSynth3.h"', '']
    ren = {'cloneFuncRef': 'cloneFunctionRef', 'freeFunc': 'freeFunction', 'createFunc': 'createFunction', 'callFunc': 'callFunction'}
    tren = {'VSFreeFuncData': 'VSFreeFunctionData', 'VSFrameRef': 'VSFrame', 'VSNodeRef': 'VSNode', 'VSFuncRef': 'VSFunction', 'VSFormat': 'VSVideoFormat', 'VSAPI': 'VSAPI3'}
    for n, x, o, t in off:
        x = ren.get(x, x)
        t = re.sub(r'\bVS\w+', lambda m: tren.get(m.group(0), m.group(0)), t)
        L.append('namespace vs3 { static_assert(std::is_same_v<decltype(%s::%s), %s>, "VapourSynth3.h: the type of %s.%s, as in VapourSynth.h"); }' % (names.get(n, n), x, t, names.get(n, n), x))
        L.append('static_assert(offsetof(%s, %s) == %d, "VapourSynth3.h: %s.%s is at offset %d, as in VapourSynth.h");' % (names.get(n, n), x, o, names.get(n, n), x, o))
    for (f, n), s in sizes.items():
        L.append('static_assert(sizeof(%s) %s %d, "VapourSynth3.h: the size of %s is %d, as in VapourSynth.h");' % (names.get(n, n), '>=' if n == 'VSAPI' else '==', s, names.get(n, n), s))
    for l in open(os.path.join(HERE, 'api3.cpp')):
        if l.startswith('static_assert(') and ': the value of ' in l and 'VAPOURSYNTH_API' not in l:
            if any(x in l for x in ('fmSerial', 'static_assert(pe', 'static_assert(st')):
                continue # not spelt in the copy
            L.append(l.strip().replace('static_assert(', 'static_assert(vs3::').replace('VapourSynth.h', 'VapourSynth3.h'))
    open(os.path.join(HERE, 'api3core.cpp'), 'w').write('\n'.join(L) + '\n')


main()
