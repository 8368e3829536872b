"""Builds the IR exporter and the exported representation of /repo's current sources (lazily, keyed by content)."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, glob, fcntl, concurrent.futures

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DEFS = ['-DVS_CORE_EXPORTS', '-DVS_CURRENT_RELEASE=78', '-DVS_GRAPH_API', '-DVS_USE_LATEST_API', '-DVSSCRIPT_USE_LATEST_API', '-DVS_TARGET_OS_LINUX',
        '-DVS_TARGET_CPU_X86', '-DHAVE_SCHED_GETAFFINITY']
CORE = ['vsapi', 'vscore', 'vsthreadpool', 'vslog', 'memoryuse', 'cpufeatures', 'coreplugins']


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-4000:]))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:16]


def readb(p):
    with open(p, 'rb') as f:
        return f.read()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, '.lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tool():
    src = os.path.join(VERIF, 'tool', 'vsir.cpp')
    out = os.path.join(BUILD, 'vsir-' + sha(readb(src)))
    with Lock():
        if not os.path.exists(out):
            cfg = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().split()
            ld = subprocess.check_output(['llvm-config-18', '--ldflags']).decode().split()
            run(['clang++-18', '-O1'] + cfg + ['-fno-rtti', '-w', src, '-o', out + '.tmp'] + ld + ['-lLLVM-18'])
            os.rename(out + '.tmp', out)
    return out


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/src/**/*.h', recursive=True))
        _hdr = sha(*[x for f in fs for x in (os.path.relpath(f, REPO), readb(f))])
    return _hdr


def flags_for(path):
    rel = os.path.relpath(path, REPO)
    fl = ['-ffile-prefix-map=%s=/repo' % REPO, '-std=c++20', '-fno-char8_t', '-fno-math-errno', '-I' + REPO + '/include', '-I' + REPO + '/src/core'] + DEFS
    if rel.endswith('vsresize.cpp'):
        # the installed zimg predates this member; renamed for analysis only
        fl.append('-Dchromatic_adaptation=allow_approximate_gamma')
    if '/x86/' in rel:
        fl.append('-march=x86-64-v4' if '512' in rel else '-march=x86-64-v3')
    if '/vsscript/' in rel:
        fl += ['-I/usr/include/python3.12', '-I' + REPO + '/src/vsscript']
    return fl


def ir_one(path, core=False, extra=()):
    t = tool()
    fl = flags_for(path) + list(extra) + (['-fstandalone-debug'] if core else [])
    key = sha(headers_hash(), readb(path), ' '.join(fl), os.path.basename(t), core, path)
    out = os.path.join(BUILD, 'ir', '%s.%s.json' % (os.path.splitext(os.path.basename(path))[0], key))
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    bc = tmp + '.bc'
    try:
        run(['clang++-18'] + fl + ['-w', '-g', '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', path, '-o', bc])
        run([t, bc, tmp] + (['--flat'] if core == 'flat' else ['--core'] if core else []))
        os.rename(tmp, out)
    finally:
        if os.path.exists(bc):
            os.unlink(bc)
    # forget older versions of the same unit
    for old in glob.glob(os.path.join(BUILD, 'ir', os.path.splitext(os.path.basename(path))[0] + '.*.json')):
        if old != out and os.path.getmtime(old) < os.path.getmtime(out) - 3600:
            try:
                os.unlink(old)
            except OSError:
                pass
    return out


def cython():
    """the Python module: compiled to C++ by Cython as the build does it, then to IR whose locations are those of the .pyx file"""
    t = tool()
    exe = next((c for c in ('/opt/vp/venv/bin/cython', shutil.which('cython')) if c and os.path.exists(c)), None)
    if exe is None:
        raise BuildError('no Cython compiler')
    srcs = sorted(glob.glob(REPO + '/src/cython/*.p*'))
    fl = ['-std=c++20', '-fno-char8_t', '-I' + REPO, '-I' + REPO + '/include', '-I' + REPO + '/src/common', '-I' + REPO + '/src/vsscript', '-I/usr/include/python3.12', '-DPy_LIMITED_API=0x030c0000'] + DEFS
    key = sha(headers_hash(), *[x for f in srcs for x in (f, readb(f))], ' '.join(fl), os.path.basename(t))
    out = os.path.join(BUILD, 'ir', 'vapoursynth.pyx.%s.json' % key)
    with Lock():
        if os.path.exists(out) and os.path.exists(out + '.names'):
            return out
        os.makedirs(os.path.dirname(out), exist_ok=True)
        with tempfile.TemporaryDirectory(dir=BUILD) as d:
            for f in srcs:
                shutil.copy(f, d)
            cpp = os.path.join(d, 'vapoursynth.cpp')
            p = subprocess.run([exe, '-3', '--cplus', '--line-directives', 'vapoursynth.pyx', '-o', cpp], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
            if p.returncode:
                raise BuildError('cython\n' + p.stdout.decode(errors='replace')[-4000:])
            text = open(cpp).read()
            text = re.sub(r'^(#line \d+ )"(?:[^"\n]*/)?(\w+\.p(?:yx|xd))"', r'\1"/repo/src/cython/\2"', text, flags=re.M)
            names = {int(n): x for x, n in re.findall(r'^#define __pyx_\w*?_u_(\w+) __pyx_string_tab\[(\d+)\]', text, flags=re.M)}
            if names:
                text += '\nextern "C" const unsigned long vsir_string_tab;\nconst unsigned long vsir_string_tab = __builtin_offsetof(__pyx_mstatetype, __pyx_string_tab);\n'
            open(cpp, 'w').write(text)
            with open(os.path.join(d, 'names'), 'w') as f:
                json.dump(names, f)
            run(['clang++-18'] + fl + ['-w', '-g', '-fstandalone-debug', '-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', cpp, '-o', cpp + '.bc'])
            run([t, cpp + '.bc', os.path.join(d, 'out'), '--cython'])
            os.rename(os.path.join(d, 'names'), out + '.names')
            os.rename(os.path.join(d, 'out'), out)
    for old in glob.glob(os.path.join(BUILD, 'ir', 'vapoursynth.pyx.*.json*')):
        if not old.startswith(out) and os.path.getmtime(old) < os.path.getmtime(out) - 3600:
            try:
                os.unlink(old)
            except OSError:
                pass
    return out


def filter_units():
    return [f for f in sorted(glob.glob(REPO + '/src/core/*.cpp')) if os.path.splitext(os.path.basename(f))[0] not in CORE]


def core_units():
    return [f for f in sorted(glob.glob(REPO + '/src/core/*.cpp')) if os.path.splitext(os.path.basename(f))[0] in CORE]


def ir_files(paths, core=False):
    """[(source, json)]"""
    tool()
    headers_hash()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(zip(paths, ex.map(lambda p: ir_one(p, core), paths)))


def pmap(fn, items, jobs=8):
    """run fn over items in worker processes"""
    items = list(items)
    if len(items) <= 1:
        return [fn(x) for x in items]
    with concurrent.futures.ProcessPoolExecutor(min(jobs, len(items))) as ex:
        return list(ex.map(fn, items))


if __name__ == '__main__':
    for s, j in ir_files(filter_units()) + ir_files(core_units(), True):
        print(s, j)
    print('vapoursynth.pyx', cython())
