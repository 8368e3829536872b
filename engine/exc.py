"""Which C++ exceptions leave which functions: explicit throws of the repository and throwing library functions, propagated
through calls and filtered by the handlers around them."""
import re
import subprocess
from refs import api_name
from taint import Guards, canon

# library calls that raise something other than exhaustion of memory or threads
THROWERS = [
    (re.compile(r'std::__throw_invalid_argument'), 'std::invalid_argument'),
    (re.compile(r'std::(\w+ )?sto(i|l|ul|ll|ull|f|d|ld)\('), 'std::invalid_argument'),
    (re.compile(r'.*std::optional<.*>::value\('), 'std::bad_optional_access'),
    (re.compile(r'.* std::get<.*std::variant<'), 'std::bad_variant_access'),
    (re.compile(r'.*std::any_cast<'), 'std::bad_any_cast'),
    (re.compile(r'.*std::basic_regex<.*>::basic_regex\('), 'std::regex_error'),
    (re.compile(r'.*std::function<.*>::operator\(\)'), None),
    (re.compile(r'std::__throw_domain_error'), 'std::domain_error'),
    (re.compile(r'std::__throw_runtime_error'), 'std::runtime_error'),
    (re.compile(r'std::__throw_range_error'), 'std::range_error'),
    (re.compile(r'std::__throw_regex_error'), 'std::regex_error'),
    (re.compile(r'std::__throw_bad_function_call'), 'std::bad_function_call'),
    (re.compile(r'std::__throw_bad_optional_access'), 'std::bad_optional_access'),
    (re.compile(r'std::__throw_bad_variant_access'), 'std::bad_variant_access'),
    (re.compile(r'std::__throw_bad_any_cast'), 'std::bad_any_cast'),
    (re.compile(r'std::__throw_ios_failure'), 'std::ios_base::failure'),
    (re.compile(r'__cxa_bad_cast'), 'std::bad_cast'),
    (re.compile(r'__cxa_bad_typeid'), 'std::bad_typeid'),
]
BASES = {'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::future_error': 'std::logic_error',
         'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
         'std::regex_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error', 'std::filesystem::filesystem_error': 'std::system_error', 'std::ios_base::failure': 'std::system_error',
         'std::bad_function_call': 'std::exception', 'std::bad_optional_access': 'std::exception', 'std::bad_variant_access': 'std::exception', 'std::bad_cast': 'std::exception', 'std::bad_any_cast': 'std::bad_cast',
         'std::bad_typeid': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::bad_array_new_length': 'std::bad_alloc', 'std::bad_weak_ptr': 'std::exception', 'std::bad_exception': 'std::exception',
         'std::nested_exception': None}
STRPOS = re.compile(r'.*basic_string(_view)?<.*>::(substr|erase|insert|replace)\(unsigned long')
EXHAUST = {'std::bad_alloc', 'std::bad_array_new_length', 'std::length_error'}


def norm(t):
    return t.replace('__cxx11::', '').replace('[abi:cxx11]', '').strip()


class Exc:
    def __init__(self, P):
        self.P = P
        self.base = dict(BASES)
        self.tn = {}
        self.names()
        for M in P.modules:
            for g, G in M.globals.items():
                if g.startswith('_ZTI') and G.get('init'):
                    t = self.tname(M, g)
                    bs = []

                    def walk(x):
                        if isinstance(x, list):
                            if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str):
                                if x[1].startswith('_ZTI'):
                                    bs.append(self.tname(M, x[1]))
                                return
                            for y in x:
                                walk(y)
                    walk(G['init'])
                    if bs:
                        self.base.setdefault(t, bs[0])
        self.guards = {}
        self.esc = {}        # function -> {(type, where thrown): (instruction, next function or None)}
        self.term = {}

    def names(self):
        gs = set()

        def walk(x):
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str) and x[1].startswith('_ZTI'):
                    gs.add(x[1])
                    return
                for y in x:
                    walk(y)
        for M in self.P.modules:
            for g, G in M.globals.items():
                if g.startswith('_ZTI'):
                    gs.add(g)
                    walk(G.get('init'))
            for F in M.funcs.values():
                for I in F.insts():
                    if I['o'] == 'landingpad':
                        walk(I['ct'])
                    elif I.get('f') == ['g', '__cxa_throw']:
                        walk(I['a'])
        gs = sorted(gs)
        out = subprocess.run(['c++filt'], input='\n'.join(gs), stdout=subprocess.PIPE, text=True).stdout.split('\n')
        for g, t in zip(gs, out):
            self.tn[g] = norm(t.replace('typeinfo for ', ''))

    def tname(self, M, g):
        return self.tn.get(g, g)

    def isa(self, t, b):
        n = 0
        while t is not None and n < 20:
            if t == b:
                return True
            t = self.base.get(t)
            n += 1
        return False

    def clauses(self, F, b):
        """(types caught, catches all, terminates) of the landing pad of block b"""
        for I in F.blocks[b]:
            if I['o'] == 'landingpad':
                ts, allc = [], False
                for k, o in I['ct']:
                    if k != 'c':
                        continue
                    if isinstance(o, list) and o[0] == 'g':
                        ts.append(self.tname(F.m, o[1]))
                    elif isinstance(o, list) and o[0] in ('n', 'i', 'z'):
                        allc = True
                return ts, allc
        return [], False

    def terminates(self, F, b):
        return any(I['o'] in ('call', 'invoke') and isinstance(I['f'], list) and I['f'][-1] in ('__clang_call_terminate', '_ZSt9terminatev') for I in F.blocks[b])

    def caught(self, F, I, t):
        """is an exception of type t raised at I handled in F"""
        if I['o'] != 'invoke':
            return False
        ts, allc = self.clauses(F, I['s'][1])
        return allc and not self.terminates(F, I['s'][1]) or any(self.isa(t, x) for x in ts)

    def thrown(self, F, I):
        """types raised by the instruction itself (not by what it calls)"""
        f = I['f']
        if not isinstance(f, list) or f[0] != 'g':
            return ()
        n = f[1]
        if n == '__cxa_throw':
            o = I['a'][1]
            return (self.tname(F.m, o[1]),) if isinstance(o, list) and o[0] == 'g' else ('?',)
        if n.startswith('llvm.'):
            return ()
        if not (F.file or '').startswith('/repo/') and not n.startswith('_ZNSt10filesystem'):
            return ()
        if n == '__cxa_rethrow':
            # whatever is caught around it
            return tuple(sorted(self.arrive(F)))
        d = re.sub(r'\[abi:\w+\]', '', norm(F.m.dem(n)))
        for rx, t in THROWERS:
            if rx.match(d):
                return (t,) if t else ()
        m = STRPOS.match(d)
        if m and self.unfound(F, I, m.group(2)):
            return ('std::out_of_range',)
        if re.match(r'std::filesystem::(status|symlink_status|exists|is_\w+|equivalent|space|(recursive_)?directory_iterator::(operator\+\+|increment|pop)|directory_entry::(refresh|_M_file_type|status|assign|replace_filename)|file_size|hard_link_count|absolute|relative|proximate|weakly_canonical|canonical|current_path|create_\w+|copy\w*|remove\w*|rename|resize_file|permissions|last_write_time|read_symlink|temp_directory_path)\b', d) and 'error_code' not in d:
            return ('std::filesystem::filesystem_error',)
        if re.match(r'std::filesystem::(recursive_)?directory_iterator::(recursive_)?directory_iterator\(.*error_code\*\)', d):
            # the public constructor passes a null pointer for the throwing form
            a = I['a'][-1]
            if isinstance(a, list) and a[0] == 'n':
                return ('std::filesystem::filesystem_error',)
        return ()

    def unfound(self, F, I, what):
        """may the position be the answer of a search that found nothing"""
        a = I['a']
        k = len(a) - 2 if what == 'substr' else 1
        if k < 0 or k >= len(a) or not isinstance(a[k], int):
            return False
        cs = None
        for x, extra in self.sources(F, a[k]):
            if cs is None:
                G = self.guards.setdefault(id(F), None) or Guards(F)
                self.guards[id(F)] = G
                cs = str(sorted(G.of(I['_b']), key=str))
            if str(canon(F, x)) not in cs and str(canon(F, a[k])) not in cs:
                return True
        return False

    def sources(self, F, o, seen=None):
        """searches whose answer the operand may be"""
        seen = set() if seen is None else seen
        if not isinstance(o, int) or o in seen:
            return []
        seen.add(o)
        D = F.defs.get(o)
        if D is None:
            return []
        if 'ph' in D:
            return [y for _, x in D['ph'] for y in self.sources(F, x, seen)]
        if D['o'] == 'select':
            return [y for x in D['a'][1:] for y in self.sources(F, x, seen)]
        if D['o'] in ('call', 'invoke') and isinstance(D['f'], list) and re.search(r'basic_string(_view)?<.*>::r?find(_\w+)?\(', F.m.dem(D['f'][1])):
            return [(o, None)]
        return []

    def arrive(self, F):
        s = set()
        for I in F.insts():
            if I['o'] == 'invoke':
                for t in self.raised(F, I):
                    if self.caught(F, I, t[0]):
                        s.add(t[0])
        return s

    def callee(self, F, I):
        f = I.get('f')
        if isinstance(f, list) and f[0] == 'g':
            G = F.m.funcs.get(f[1]) or self.P.funcs.get(f[1]) or F.m.funcs.get(F.m.aliases.get(f[1], ''))
            return G
        return None

    def raised(self, F, I):
        """(type, throwing function, instruction) that may leave the call"""
        out = {}
        if self.rethrow(I):
            return out
        for t in self.thrown(F, I):
            out[(t, F.name, I['_b'], I['_n'])] = None
        G = self.callee(F, I)
        if G is not None:
            for k in self.esc.get((id(G.m), G.name), ()):
                out[k] = G
        else:
            for G in self.indirect(F, I):
                for k in self.esc.get((id(G.m), G.name), ()):
                    out[k] = G
        return out

    def rethrow(self, I):
        f = I['f']
        return isinstance(f, list) and f[:2] == ['g', '__cxa_rethrow']

    def indirect(self, F, I):
        """virtual functions and std::function bodies a call through a pointer may reach"""
        if not isinstance(I['f'], int) or api_name(F, F.defs.get(I['f'])):
            return ()
        if self.virt is None:
            self.virt = {}
            seen = set()

            def put(M, n):
                G = M.funcs.get(n) or self.P.funcs.get(n)
                if G is not None and id(G) not in seen:
                    seen.add(id(G))
                    self.virt.setdefault(len(G.args), []).append(G)

            def walk(M, x):
                if isinstance(x, list):
                    if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str):
                        put(M, x[1])
                        return
                    for y in x:
                        walk(M, y)
            for M in self.P.modules:
                for n, g in M.globals.items():
                    if n.startswith('_ZTV'):
                        walk(M, g.get('init'))
                for n in M.funcs:
                    if '_Function_handler' in n and '_M_invoke' in n:
                        put(M, n)
        return self.virt.get(len(I['a']), ())
    virt = None

    def run(self):
        fs = []
        seen = set()
        for M in self.P.modules:
            for F in M.funcs.values():
                if F.blocks and id(F) not in seen:
                    seen.add(id(F))
                    fs.append(F)
        for F in fs:
            F.defs
        self.fs = fs
        ch = True
        while ch:
            ch = False
            for F in fs:
                key = (id(F.m), F.name)
                E = self.esc.setdefault(key, {})
                n = len(E)
                for I in F.insts():
                    if I['o'] not in ('call', 'invoke'):
                        continue
                    R = self.raised(F, I)
                    if self.rethrow(I):
                        for t in self.arrive(F):
                            if not self.caught(F, I, t):
                                E.setdefault((t, F.name, I['_b'], I['_n']), (I, None))
                        continue
                    for k, G in R.items():
                        if k[0] in EXHAUST:
                            continue
                        if self.caught(F, I, k[0]):
                            continue
                        if I['o'] == 'invoke' and self.terminates(F, I['s'][1]):
                            self.term.setdefault((F.name, k), (F, I, G))
                            continue
                        E.setdefault(k, (I, G))
                if len(E) != n:
                    ch = True
        return self

    def entries(self):
        """functions called from outside the project's own C++: those whose address is taken (callbacks, API tables), thread
        bodies and exported functions that nothing here calls"""
        taken, called = set(), set()

        def walk(x):
            if isinstance(x, list):
                if len(x) >= 2 and x[0] == 'g' and isinstance(x[1], str):
                    taken.add(self.P.alias.get(x[1], x[1]))
                    return
                for y in x:
                    walk(y)
        for M in self.P.modules:
            for n, g in M.globals.items():
                if not n.startswith('_ZT'):
                    walk(g.get('init'))
        for F in self.fs:
            for I in F.insts():
                f = I.get('f')
                if isinstance(f, list) and f[0] == 'g':
                    called.add(f[1])
                for o in list(I.get('a', ())) + [o for _, o in I.get('ph', ())]:
                    if isinstance(o, list):
                        walk(o)
        for F in self.fs:
            if (F.file or '').startswith('/repo/') and (F.name in taken or F.name not in called) and not F.name.startswith('_GLOBAL__sub') and '__cxx_global_var_init' not in F.name and not self.inl(F):
                yield F

    def inl(self, F):
        """members and templates nobody calls here are only called from the project's own code"""
        return False

    def where(self, k):
        t, fn, b, n = k
        for F in self.fs:
            if F.name == fn:
                return F, F.blocks[b][n]

    def path(self, F, k):
        out = []
        seen = set()
        while F is not None and id(F) not in seen:
            seen.add(id(F))
            e = self.esc.get((id(F.m), F.name), {}).get(k)
            if e is None:
                break
            I, G = e
            out.append((F, I))
            F = G
        return out
