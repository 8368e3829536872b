"""C15: every requested frame is completed once (worker loop, request entry and shutdown of the thread pool)."""
import re
from flow import *
from core import field_of

CTX, POOL, NODE = 'VSFrameContext', 'VSThreadPool', 'VSNode'


def has_field(t, c, f):
    return anyterm(t, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'f' and x[2] == c and x[3] == f)


def is_field(t, c, f):
    return isinstance(t, tuple) and len(t) == 4 and t[0] == 'f' and t[2] == c and t[3] == f


class Sched(Client):
    named = ('VSNode::getFrameInternal', 'VSNode::getCachedFrameInternal', 'VSCore::notifyCaches', 'VSCore::clearCaches', 'VSCore::logMessage', 'VSCore::logFatal',
             'VSCore::getFrameRefInfo', 'VSNode::expectedTransientAllocation', 'VSNode::getName', 'VSThreadPool::taskCmp')

    def __init__(self, rep, root):
        self.rep = rep
        self.root = root
        self.seen = {}
        self.cells = CELLS

    def bad(self, fl, st, rule, msg, I=None):
        F, b, n = st.stack[-1]
        J = I or F.blocks[b][min(n, len(F.blocks[b]) - 1)]
        self.rep.violation(rule, F.loc(J), fl.root.dem.split('(')[0], msg, path=' '.join('%s=%d' % h for h in st.hist))

    def did(self, what, n=1):
        self.seen[what] = self.seen.get(what, 0) + n

    # ---- what counts

    def event(self, F, I, dem, sn):
        if dem is None:
            f = I.get('f')
            if isinstance(f, int):
                D = F.defs.get(f)
                if D is not None and D['o'] == 'load':
                    fo = field_of(F, D['a'][0])
                    return bool(fo and fo[0] == CTX and fo[1] == 'frameDone')
            return False
        if sn in ('VSNode::getFrameInternal', 'VSNode::getCachedFrameInternal', 'std::condition_variable::wait', 'std::condition_variable::notify_one', 'std::condition_variable::notify_all',
                  'std::thread::thread', 'std::thread::join'):
            return F.dem.startswith(('VSThreadPool::', 'VSFrameContext::')) or CTX in F.dem or POOL in F.dem
        if I['a'] and isinstance(I['a'][0], int):
            fo = field_of(F, I['a'][0])
            if fo and (fo[0], fo[1].split('.')[0]) in ((POOL, 'tasks'), (POOL, 'altTasks'), (POOL, 'allContexts'), (CTX, 'notifyCtxList'), (CTX, 'reqList'), (CTX, 'availableFrames')):
                m = sn.split('::')[-1]
                if fo[0] == CTX and F.dem.split('(')[0].split('::')[-1] in ('requestFrameFilter', 'getFrameFilter', 'getFrameFilter3'):
                    return False
                return m.startswith(('push', 'emplace', 'insert', 'erase', 'pop', 'clear', 'swap', 'splice', 'remove'))
        return sn == 'VSFrameContext::setError' and POOL in F.dem

    def follows(self, G, sn):
        return sn == 'std::condition_variable::wait'

    def event_store(self, c, f):
        return (c, f) in ((POOL, 'activeThreads'), (POOL, 'idleThreads'), (CTX, 'numFrameRequests'), (POOL, 'flushCaches'), (NODE, 'serialFrame'), (NODE, 'serialOwner'))

    def canon(self, base, c):
        if c == CTX:
            if anyterm(base, lambda x: isinstance(x, tuple) and x[:2] == ('o', 'new')):
                return ('new',)
            if has_field(base, CTX, 'notifyCtxList'):
                return ('dep',)
            if has_field(base, POOL, 'allContexts'):
                return ('found',)
            return ('main',)
        if c == POOL:
            return ('pool',)
        if c == NODE:
            return ('node',)
        return base

    def key(self, fl, st):
        fm = st.facts.get(('ld', ('f', ('node',), NODE, 'filterMode')))
        return (self.frame(st, 'run') if st.get('how') == 'run' else None, self.frame(st, 'cached') == 1,
                None if fm is None else 1 if fm == ('eq', 3) else 0 if fm[0] == 'eq' or 3 in fm[1] else None)

    # ---- net counters

    def drop(self, st, k):
        st.tag = tuple(x for x in st.tag if x[0] != k)

    def add(self, st, k, d):
        v = st.get(k, 0) + d
        st.set(k, max(-3, min(3, v)))
        if not v:
            self.drop(st, k)

    def prestore(self, fl, st, I, p, v, old):
        for f, k in (('activeThreads', 'act'), ('idleThreads', 'idl')):
            if is_field(p, POOL, f):
                d = delta(old, v)
                if d is None:
                    if self.root.startswith('VSThreadPool::VSThreadPool'):
                        return
                    self.bad(fl, st, 'counter', '%s is overwritten instead of adjusted' % f, I)
                else:
                    self.did('counter updates')
                    self.add(st, k, d)
        if is_field(p, POOL, 'processingThreads'):
            d = delta(old, v)
            if d is None:
                self.bad(fl, st, 'counter', 'processingThreads is overwritten instead of adjusted', I)
            else:
                self.add(st, 'proc', d)
        if is_field(p, POOL, 'inflightAllocation'):
            if v[0] in ('add', 'sub') and v[1] == old:
                pend = st.get('infl', ())
                t = v[2]
                if v[0] == 'add':
                    pend = pend + (t,)
                elif t in pend:
                    pend = tuple(x for i, x in enumerate(pend) if i != pend.index(t))
                else:
                    pend = pend + (('neg', t),)
                st.set('infl', pend[:4]) if pend else self.drop(st, 'infl')
            elif v != old and not (old[0] == 'add' and v == old[1]):
                if old[0] == 'add' and v[0] == 'sub' and v[1] == old:
                    pass
                st.set('infl', (('?',),))
        if is_field(p, CTX, 'numFrameRequests'):
            if p[1] == ('dep',):
                d = delta(old, v)
                if d != -1:
                    self.bad(fl, st, 'request-count', 'the pending request count of a waiting context is not decremented by exactly one (%s)' % (d,), I)
                self.add(st, 'dec', 1)
                st.set('decd', 1)
                self.did('pending count decrements')
            elif p[1] == ('main',) and not self.root_ctor(st):
                w = v
                while w[0] == 'snap':
                    w = w[1]
                if not (w[0] == 'call' and w[1].endswith('::size') and has_field(w, CTX, 'reqList')):
                    if not (v == ('c', 0)):
                        self.bad(fl, st, 'request-count', 'the pending request count is set to something other than the number of requests', I)
                elif st.get('rclr') and w is v:
                    self.bad(fl, st, 'request-count', 'the number of requests is taken after the request list was emptied', I)
                self.add(st, 'nset', 1)
                self.did('pending count set')

    def root_ctor(self, st):
        F = st.stack[-1][0]
        return F.dem.startswith('VSFrameContext::VSFrameContext') or F.name.startswith('_ZN14VSFrameContextC')

    def store(self, fl, st, I, p, v):
        if is_field(p, POOL, 'flushCaches'):
            st.set('fset', v[1] if v[0] == 'c' else 2)
        if is_field(p, NODE, 'serialFrame') and v == ('c', -1):
            st.set('sfr', 1)
        if is_field(p, NODE, 'serialOwner') and v == C0:
            st.set('sow', 1)
        if is_field(p, POOL, 'stopThreads'):
            st.set('stopset', v[1] if v[0] == 'c' else 2)
        if is_field(p, CTX, 'first') and v == C0 and p[1] == ('main',):
            st.set('firstclr', 1)

    # ---- calls

    def call(self, fl, st, I, dem, sn, args):
        if dem is None:
            ft = args[0]
            if has_field(ft, CTX, 'frameDone'):
                return self.frame_done(fl, st, I, args)
            return None
        m = sn.split('::')[-1]
        if sn.startswith(('VSCore::', 'VSNode::')) and sn in self.named and sn not in ('VSCore::logFatal', 'VSNode::getFrameInternal', 'VSNode::getCachedFrameInternal'):
            # never touch the scheduler's state
            return ('u',) if 'i' in I else ('u0',)
        if sn == 'operator new':
            # a context under construction is recognised by its constructor
            F, b, n = st.stack[-1]
            return ('o', 'new', fl.site(st.stack), F.name[:40], I['i'])
        if sn.startswith('VSFrameContext::VSFrameContext') or (sn.startswith('_ZN14VSFrameContextC')):
            return None
        if sn in ('VSCore::logFatal', '__assert_fail', 'std::terminate'):
            return 'stop'
        if sn == 'VSNode::getFrameInternal':
            self.did('frame production calls')
            if st.get('t') != 1:
                self.bad(fl, st, 'task', 'a frame is produced for a context that is still queued', I)
            if len(args) >= 4:
                self.reason(fl, st, I, args[3])
            fl.forget(st, ('o', 'frame', 'run'))
            mods = fl.mods()
            # the filter can only touch its own context and node state
            fl.kill(st, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'f' and (x[2] == CTX and x[1] == ('main',) and x[3] in ('error', 'errorMessage', 'reqList', 'availableFrames', 'numFrameRequests')),
                    ('gf', I['_b'], I['_n']))
            st.mem[args[0]] = ('o', 'frame', 'run')
            st.set('how', 'run')
            return ('u0',)
        if sn == 'VSNode::getCachedFrameInternal':
            fl.forget(st, ('o', 'frame', 'cached'))
            st.mem[args[0]] = ('o', 'frame', 'cached')
            self.did('cache lookups')
            return ('u0',)
        if sn == 'VSFrameContext::setError':
            if len(args) > 1 and isinstance(args[0], tuple):
                ob = self.canon(args[0], CTX)
                if ob == ('dep',):
                    self.deliver(fl, st, I, 'error')
                    fl.kill(st, lambda x: isinstance(x, tuple) and len(x) == 4 and x[0] == 'f' and x[1] == ('dep',), ('se', I['_b'], I['_n']))
                    return ('u',)
            return None
        a0 = args[0] if args else None
        if a0 is not None:
            if is_field(a0, POOL, 'tasks') or is_field(a0, POOL, 'altTasks'):
                which = a0[3]
                if m in ('begin', 'cbegin') and which == 'tasks' and self.root == 'VSThreadPool::runTasks':
                    self.iteration(fl, st, I, 'next')
                    return ('call', sn, a0)
                if m.startswith(('push', 'emplace', 'insert')):
                    return self.push(fl, st, I, which, args[1:])
                if m.startswith(('erase', 'pop', 'remove')):
                    if which == 'tasks':
                        if st.get('t'):
                            self.bad(fl, st, 'task', 'a second task is removed before the first one is dealt with', I)
                        st.set('t', 1)
                        self.did('tasks taken')
                    return ('u',)
                if m == 'swap':
                    o = args[1] if len(args) > 1 else None
                    if o is not None and {a0[3], o[3] if is_field(o, POOL, 'tasks') or is_field(o, POOL, 'altTasks') else ''} == {'tasks', 'altTasks'}:
                        st.set('swapped', 1)
                    return ('u',)
                if m == 'splice':
                    o = [x for x in args[1:] if is_field(x, POOL, 'altTasks')]
                    if which == 'tasks' and o:
                        st.set('swapped', 1)
                    return ('u',)
                if m == 'clear' and which == 'tasks':
                    self.bad(fl, st, 'task', 'queued tasks are discarded', I)
                if m == 'sort':
                    return ('u',)
            if len(args) > 1 and sn in ('std::swap',) and {x[3] for x in args[:2] if isinstance(x, tuple) and len(x) == 4} == {'tasks', 'altTasks'}:
                st.set('swapped', 1)
                return ('u0',)
            if is_field(a0, POOL, 'allContexts'):
                if m.startswith('erase'):
                    self.add(st, 'erased', 1)
                    self.did('context removals')
                    if len(args) > 1 and anyterm(args[1], lambda x: x == ('dep',)):
                        self.bad(fl, st, 'context', 'the entry of a different context is removed', I)
                    return ('u',)
                if m.startswith(('insert', 'emplace', 'try_emplace', 'operator[]')):
                    self.add(st, 'inserted', 1)
                    return ('u',) if 'i' in I else ('u0',)
            if is_field(a0, CTX, 'availableFrames'):
                if m.startswith(('push', 'emplace')):
                    if a0[1] == ('dep',):
                        self.deliver(fl, st, I, 'frame')
                        fr = [x for x in args[1:]]
                    return ('u0',)
                return ('u0',)
            if is_field(a0, CTX, 'notifyCtxList'):
                if m.startswith(('push', 'emplace')):
                    if a0[1] == ('dep',):
                        self.bad(fl, st, 'subscribe', 'a notification is added to a waiting context', I)
                    st.set('sub', 'many' if st.get('sub') else a0[1][0])
                    self.did('subscriptions')
                    return ('u0',)
                if m in ('clear',):
                    self.bad(fl, st, 'notify', 'the list of waiting contexts is cleared', I)
            if is_field(a0, CTX, 'reqList') and m == 'clear':
                st.set('rclr', 1)
                fl.kill(st, lambda x: is_field(x, CTX, 'reqList'), ('rc', I['_b'], I['_n']))
                return ('u0',)
        if sn in ('std::condition_variable::notify_one', 'std::condition_variable::notify_all'):
            if is_field(a0, POOL, 'newWork'):
                self.drop(st, 'pend')
                if m == 'notify_all' or self.root != 'VSThreadPool::runTasks':
                    st.set('na', 2 if m == 'notify_all' else max(1, st.get('na', 0)))
            if is_field(a0, POOL, 'allIdle'):
                st.set('ai', 1)
            return ('u0',)
        if sn == 'std::thread::thread' and len(args) > 1 and self.root != 'x':
            self.add(st, 'act', -1)
            self.drop(st, 'pend')
            self.did('threads spawned')
            return ('u0',)
        if sn == 'std::condition_variable::wait' and len(args) > 2 and '(' in dem and '<' in dem.split('(')[0].split('wait', 1)[1]:
            return None     # the loop around the predicate is followed
        if sn.startswith('std::condition_variable::wait'):
            if self.root == 'VSThreadPool::waitForDone':
                self.drop(st, 'allidle')
                self.did('waits for the workers')
            if is_field(a0, POOL, 'newWork'):
                self.wait(fl, st, I)
            self.unlocked(fl, st, I)
            return ('u0',)
        if sn == 'std::thread::join':
            self.join(fl, st, I)
            return ('u0',)
        if sn in ('std::unique_lock::unlock', 'std::unique_lock::lock', 'std::unique_lock::~unique_lock', 'std::lock_guard::~lock_guard', 'std::unique_lock::unique_lock', 'std::lock_guard::lock_guard'):
            if m in ('unlock', '~unique_lock', '~lock_guard'):
                if not self.callback_lock(st, args):
                    self.at_unlock(fl, st, I)
                    self.unlocked(fl, st, I)
                    st.set('lk', 0)
            elif m == 'lock':
                st.set('lk', 1)
            return ('u0',)
        if re.search(r'_List_(const_)?iterator::operator\+\+$', sn) and self.root == 'VSThreadPool::runTasks':
            if st.get('t'):
                self.bad(fl, st, 'task', 'the task list is advanced after the current task was removed', I)
            self.newtask(fl, st, I)
            if args[0] in st.mem:
                del st.mem[args[0]]
            fl.havoc_args(st, args[:1])
            return ('u',)
        if re.search(r'(list|vector|map|unordered_map|set)::(end|begin|find)$', sn) or re.search(r'operator(==|!=)$', sn):
            return ('call', sn) + tuple(fl.byval(st, a) for a in args)
        if re.search(r'iterator(_base)?::operator(->|\*)$', sn):
            return ('call', sn) + tuple(fl.byval(st, a) for a in args)
        return None

    def callback_lock(self, st, args):
        return False

    def unlocked(self, fl, st, I):
        """others may have changed everything but the context this thread owns"""
        F, b, n = st.stack[-1]
        fl.kill(st, lambda x: isinstance(x, tuple) and (x == ('pool',) or x == ('dep',) or x == ('found',) or self.root == 'VSThreadPool::runTasks' and x == ('arg', 1)), ('ul', fl.site(st.stack), b, n))

    def newtask(self, fl, st, I):
        fl.kill(st, lambda x: isinstance(x, tuple) and x in (('main',), ('node',), ('dep',)), ('nt', I['_b'], I['_n']))
        st.facts = {t: v for t, v in st.facts.items() if not anyterm(t, lambda x: isinstance(x, tuple) and x in (('main',), ('node',), ('dep',), ('o', 'frame', 'cached'), ('o', 'frame', 'run')))}

    # ---- obligations

    def truth(self, st, c, f, ob):
        """0/1/None for a bool field of the context"""
        for t, v in st.facts.items():
            if t == ('ld', ('f', (ob,), c, f)):
                if v[0] == 'eq':
                    return int(v[1] != 0)
                if 0 in v[1]:
                    return 1
        m = st.mem.get(('f', (ob,), c, f))
        if m is not None and m[0] == 'c':
            return int(m[1] != 0)
        return None

    def frame(self, st, how):
        f = st.facts.get(('o', 'frame', how))
        if f is None:
            return None
        if f[0] == 'eq':
            return int(f[1] != 0)
        return 1 if 0 in f[1] else None

    def reason(self, fl, st, I, ar):
        self.did('activation reasons')
        err = self.truth(st, CTX, 'error', 'main')
        if ar[0] != 'c':
            if ar[0] == 'select':
                for x in ar[2:4]:
                    self.reason(fl, st, I, x)
                return
            self.rep.cannot(fl.root.dem.split('(')[0], 'the activation reason passed to the filter is not a constant on some path')
            return
        k = ar[1] if ar[1] < 2**31 else ar[1] - 2**32
        if k == -1:
            if err != 1:
                self.bad(fl, st, 'reason', 'the filter is told about an error no request reported', I)
        elif err == 1 or err is None and k != 0:
            self.bad(fl, st, 'reason', 'the filter is not told that one of its requests failed', I)
        elif k == 0:
            if not st.get('firstclr'):
                self.bad(fl, st, 'reason', 'arInitial is passed but the context is not marked as started', I)
        elif k in (1, 2):
            fs = [v for t, v in st.facts.items() if is_field(t[1] if t[0] in ('ld', 'snap') and len(t) > 1 else None, CTX, 'first')]
            if not any(v == ('eq', 0) for v in fs):
                self.bad(fl, st, 'reason', 'arAllFramesReady is passed without the context having been started', I)

    def deliver(self, fl, st, I, what):
        self.did('deliveries (%s)' % what)
        if what in ('frame', 'error'):
            how = st.get('how', '-')
            if how == 'run':
                err = self.truth(st, CTX, 'error', 'main')
                if what == 'error' and err != 1:
                    self.bad(fl, st, 'deliver', 'an error is reported to a waiting context although the filter set none', I)
                if what == 'frame' and self.frame(st, 'run') != 1:
                    self.bad(fl, st, 'deliver', 'a waiting context is handed a frame although none was returned', I)
                if what == 'frame' and err == 1:
                    self.bad(fl, st, 'deliver', 'a waiting context is handed a frame although the filter failed', I)
            elif what == 'frame' and self.frame(st, 'cached') != 1:
                self.bad(fl, st, 'deliver', 'a waiting context is handed a frame that was not found in the cache', I)
        st.set('dlv', 'many' if st.get('dlv') else what)

    def dep_done(self, fl, st, I):
        """one waiting context has been dealt with"""
        d = st.get('dlv')
        if not d:
            self.bad(fl, st, 'notify', 'a waiting context is passed over without frame or error', I)
        elif d == 'many':
            self.bad(fl, st, 'notify', 'a waiting context is notified more than once', I)
        if st.get('dec', 0) != 1:
            self.bad(fl, st, 'notify', 'the pending request count of a waiting context is decremented %d times' % st.get('dec', 0), I)
        q = st.get('dq', 0)
        z = st.get('zero')
        if z == 1 and q != 1:
            self.bad(fl, st, 'notify', 'a context whose last request completed is queued %d times' % q, I)
        elif z != 1 and q:
            self.bad(fl, st, 'notify', 'a context is queued although it still waits for frames', I)
        elif z is None:
            self.bad(fl, st, 'notify', 'the pending request count of a waiting context is not tested for zero', I)
        for k in ('dlv', 'dec', 'dq', 'zero', 'decd'):
            st.set(k, None)
        st.tag = tuple(x for x in st.tag if x[1] is not None)
        self.did('waiting contexts handled')

    def req_done(self, fl, st, I):
        s = st.get('sub')
        if s is None:
            self.bad(fl, st, 'request', 'a requested frame is passed over without subscribing to it', I)
        elif s == 'many':
            self.bad(fl, st, 'request', 'a requested frame is subscribed to more than once', I)
        elif s == 'new' or s == 'main':
            if st.get('inserted', 0) != 1:
                self.bad(fl, st, 'request', 'a new context is registered %d times' % st.get('inserted', 0), I)
            if st.get('rq', 0) != 1:
                self.bad(fl, st, 'request', 'a new context is queued %d times' % st.get('rq', 0), I)
        elif s == 'found' and (st.get('rq') or st.get('inserted')):
            self.bad(fl, st, 'request', 'an existing context is queued or registered again', I)
        for k in ('sub', 'inserted', 'rq'):
            st.set(k, None)
        st.tag = tuple(x for x in st.tag if x[1] is not None)
        self.did('requests handled')

    def push(self, fl, st, I, which, args):
        src = args[0] if args else ('u',)
        held = fl.load(st, src)
        ob = self.canon(held, CTX)[0] if held != C0 else 'null'
        if has_field(src, CTX, 'notifyCtxList'):
            ob = 'dep'
        if which == 'altTasks':
            st.set('alt', st.get('alt', 0) + 1)
            if not any(is_field(t[1] if len(t) > 1 else None, POOL, 'flushCaches') and self.tv(v) == 1 for t, v in st.facts.items()):
                self.bad(fl, st, 'defer', 'a request is deferred although no flush is in progress', I)
            if self.reserve(st) != 0:
                self.bad(fl, st, 'defer', 'a request its thread blocks on is deferred until all threads are idle', I)
        else:
            st.set('pend', 1)
            if ob == 'dep':
                self.add(st, 'dq', 1)
            elif st.get('reqs') == 'in' or st.get('sub'):
                self.add(st, 'rq', 1)
            else:
                self.add(st, 'mq', 1)
        self.did('tasks queued')
        return ('u0',) if 'i' not in I else ('u',)

    def tv(self, v):
        return int(v[1] != 0) if v[0] == 'eq' else 1 if 0 in v[1] else None

    def reserve(self, st):
        p = ('f', ('main',), CTX, 'reserveThread')
        m = st.mem.get(p)
        t = m if m is not None else ('ld', p)
        if t[0] == 'c':
            return int(t[1] != 0)
        a, k, eq = cond(t)
        f = st.facts.get(a)
        if f is None:
            return None
        if f[0] == 'eq':
            return int((f[1] == k) == eq)
        return int(not eq) if k in f[1] else None

    def branch(self, fl, st, I, t, out):
        F, b, n = st.stack[-1]
        # loops over the waiting contexts and the requests
        for fld, tag in (('notifyCtxList', 'notified'), ('reqList', 'reqs')):
            if self.bound(t, fld):
                kind = self.bound(t, fld)
                more = self.more(t, fld, out)
                if kind == 'count':
                    if not more:
                        if st.get(tag) in (None,):
                            st.set(tag, 'empty') if tag == 'notified' else None
                    continue
                if tag == 'reqs' and self.where(st) != self.root and False:
                    continue
                if st.get(tag) == 'in':
                    (self.dep_done if tag == 'notified' else self.req_done)(fl, st, I)
                elif st.get(tag) is None:
                    self.idx_ok(fl, st, F, I, fld)
                elif st.get(tag) == 'full' and more:
                    self.bad(fl, st, 'notify' if tag == 'notified' else 'request', 'the %s is walked twice' % ('list of waiting contexts' if tag == 'notified' else 'list of requests'), I)
                st.set(tag, 'in' if more else 'full')
                if tag == 'notified':
                    fl.kill(st, lambda x: x == ('dep',), ('nd', b, n))
                    st.facts = {k: v for k, v in st.facts.items() if not anyterm(k, lambda x: isinstance(x, tuple) and (x == ('dep',)))}
                else:
                    st.facts = {k: v for k, v in st.facts.items() if not anyterm(k, lambda x: isinstance(x, tuple) and (x in (('found',), ('new',)))) and not has_field(k, POOL, 'allContexts')}
        a, k, eq = cond(t)
        eqv = eq if out else not eq
        if st.get('decd') and has_field(a, CTX, 'numFrameRequests') and anyterm(a, lambda x: x == ('dep',)):
            # after the decrement: zero or not
            if a[0] == 'add' or a[0] in ('ld', 'snap'):
                z = self.zero(a, k, eqv, st)
                if z is not None:
                    st.set('zero', z)
        if has_field(a, POOL, 'activeThreads') or has_field(a, POOL, 'idleThreads') and False:
            if self.some_active(a, k, eqv):
                self.drop(st, 'pend')
            if self.other_active(a, k, eqv):
                st.set('other', 1)
        if a[0] == 'same' and has_field(a, POOL, 'idleThreads') and has_field(a, POOL, 'allThreads'):
            st.set('allidle', 0 if not eqv and k == 0 and False else self.same(a, k, eqv))
        if a[0] == 'ult' and has_field(a, POOL, 'idleThreads') and has_field(a, POOL, 'allThreads'):
            # idle < all
            lt = (k == 1) == eqv if k in (0, 1) else None
            if has_field(a[1], POOL, 'idleThreads'):
                st.set('allidle', 0 if lt else 1)
        if anyterm(a, lambda x: isinstance(x, tuple) and x[0] == 'call' and x[1].endswith('::end')) and has_field(a, POOL, 'tasks'):
            neq = a[1].endswith('operator!=') if a[0] == 'call' else False
            holds = (k != 0) == eqv
            atend = holds != neq
            st.set('scan', 1 if atend else 0)
        if is_field(a[1] if a[0] == 'ld' else None, POOL, 'flushCaches') or (a[0] == 'snap' and has_field(a, POOL, 'flushCaches')):
            if st.get('allidle') == 1:
                st.set('fl', int((k != 0) == eqv))
        if a[0] in ('ld',) and (is_field(a[1], POOL, 'stopThreads') or a[1] == ('arg', 1)):
            st.set('stop', int((k != 0) == eqv))
        return None

    def same(self, a, k, eqv):
        # ('same', x, y) truthy means equal; cond gives (term, 0, eq)
        truthy = (k != 0) == eqv
        return int(truthy)

    def where(self, st):
        return st.stack[0][0].dem.split('(')[0]

    def bound(self, t, fld):
        """'loop' if the condition compares an index with the list's size, 'count' if it only tests for emptiness"""
        a, k, eq = cond(t)

        def sz(x):
            return isinstance(x, tuple) and x[0] == 'call' and x[1].endswith('::size') and len(x) > 2 and is_field(x[2], CTX, fld) and x[2][1] == ('main',)
        if a[0] in ('ult', 'slt', 'same') and (anyterm(a[1], sz) or anyterm(a[2], sz)):
            return 'loop'
        if sz(a) or a[0] == 'call' and a[1].endswith('::empty') and is_field(a[2], CTX, fld):
            return 'count'
        return None

    def more(self, t, fld, out):
        a, k, eq = cond(t)
        truthy = ((k != 0) == eq) == bool(out)
        if a[0] in ('ult', 'slt'):
            # index < size
            def sz(x):
                return isinstance(x, tuple) and x[0] == 'call' and x[1].endswith('::size')
            return truthy if anyterm(a[2], sz) else not truthy
        if a[0] == 'same':
            return not truthy
        if a[0] == 'call' and a[1].endswith('::empty'):
            return not truthy
        return truthy

    def idx_ok(self, fl, st, F, I, fld):
        D = F.defs.get(I['a'][0])
        for _ in range(3):
            if D is not None and D['o'] in ('xor', 'zext', 'trunc'):
                D = F.defs.get(D['a'][0])
        if D is None or D['o'] != 'icmp':
            return
        for o in D['a']:
            x = F.defs.get(o) if isinstance(o, int) else None
            while x is not None and x['o'] in ('trunc', 'zext', 'sext'):
                x = F.defs.get(x['a'][0]) if isinstance(x['a'][0], int) else None
            if x is not None and x['o'] == 'phi':
                init = [v for p, v in x['ph'] if isinstance(v, list) and v[0] == 'i']
                step = [F.defs.get(v) for p, v in x['ph'] if isinstance(v, int)]
                if init and init[0][1] != 0:
                    self.bad(fl, st, 'notify', 'the walk over %s starts at %d' % (fld, init[0][1]), I)
                for s in step:
                    if s is not None and s['o'] == 'add' and isinstance(s['a'][1], list) and s['a'][1][0] == 'i' and s['a'][1][1] != 1:
                        self.bad(fl, st, 'notify', 'the walk over %s advances by %d' % (fld, s['a'][1][1]), I)
                self.did('list walks checked')

    def zero(self, a, k, eqv, st):
        """is the count zero? a is the (possibly not reduced) term compared with k"""
        off = 0
        if a[0] == 'add' and a[2][0] == 'c':
            off = a[2][1]
        if off <= -2**31:
            off += 2**64
        if off not in (-1, 0):
            return None
        if off == 0 and not (a[0] == 'ld' or a[0] == 'snap'):
            return None
        if off == 0 and a[0] in ('ld', 'snap'):
            # value before the decrement
            if k == 1:
                return 1 if eqv else 0
            return None
        if k == 0:
            return 1 if eqv else 0
        return None

    def some_active(self, a, k, eqv):
        if a[0] == 'ult':
            truthy = (k != 0) == eqv
            if has_field(a[1], POOL, 'activeThreads') and has_field(a[2], POOL, 'maxThreads'):
                return not truthy
            if has_field(a[2], POOL, 'activeThreads') and a[1][0] == 'c':
                return truthy
            if has_field(a[1], POOL, 'maxThreads') and has_field(a[2], POOL, 'activeThreads'):
                return truthy
            if has_field(a[1], POOL, 'activeThreads') and a[2][0] == 'c':
                return not truthy and a[2][1] >= 1
            return False
        if a[0] in ('ld', 'snap', 'add') and k == 0:
            return not eqv
        return False

    def other_active(self, a, k, eqv):
        """besides this thread"""
        if a[0] == 'ult':
            truthy = (k != 0) == eqv
            if has_field(a[2], POOL, 'activeThreads'):
                if has_field(a[1], POOL, 'maxThreads'):
                    return truthy
                if a[1][0] == 'c' and a[1][1] >= 1:
                    return truthy
            if has_field(a[1], POOL, 'activeThreads') and a[2][0] == 'c' and a[2][1] >= 2:
                return not truthy
        return False

    def frame_done(self, fl, st, I, args):
        self.did('completion callbacks')
        self.add(st, 'returned', 1)
        err = self.truth(st, CTX, 'error', 'main')
        if len(args) >= 3:
            f = args[2]
            if f[0] == 'c' and f[1] == 0:
                if err != 1:
                    self.bad(fl, st, 'callback', 'the completion callback gets no frame although no error is set', I)
            else:
                if err != 0 and st.get('how') == 'run':
                    self.bad(fl, st, 'callback', 'the completion callback gets a frame although the request failed', I)
            if len(args) >= 6:
                e = args[5]
                if (e == C0) != (not (f[0] == 'c' and f[1] == 0)):
                    self.bad(fl, st, 'callback', 'the completion callback gets %s' % ('both a frame and an error' if e != C0 else 'neither a frame nor an error message'), I)
        if st.get('lk', 1) != 0 and self.root == 'VSThreadPool::runTasks':
            self.bad(fl, st, 'callback', 'the completion callback is called with the task lock held', I)
        return ('u',) if 'i' in I else ('u0',)

    def at_unlock(self, fl, st, I):
        if self.root == 'VSThreadPool::setThreadCount':
            p = ('f', ('pool',), POOL, 'maxThreads')
            m = st.mem.get(p, ('ld', p))
            if m == ('ld', p):
                return
            self.did('thread limit updates')
            if fl.known(st, m) != 1 and not anyterm(m, lambda x: isinstance(x, tuple) and x and x[0] == 'call' and re.search('max|clamp', str(x[1]))):
                self.bad(fl, st, 'limit', 'the thread limit can become 0, so that no queued frame is ever produced', I)
        if self.root != 'VSThreadPool::runTasks':
            return
        if st.get('reqs') == 'full' and not st.get('nset') and not st.get('unl'):
            self.bad(fl, st, 'request', 'the task lock is released between issuing requests and recording how many are pending', I)
        if st.get('notified') in ('full', 'in') and not st.get('erased') and self.truth(st, CTX, 'external', 'main') != 1:
            self.bad(fl, st, 'context', 'the task lock is released while a completed context can still be subscribed to', I)

    def outcome(self, st):
        how = st.get('how', '-')
        if how == 'run':
            f, e = self.frame(st, 'run'), self.truth(st, CTX, 'error', 'main')
            if f == 1 or e == 1:
                return 'done'
            if f == 0 and e == 0:
                return 'wait'
            return '?'
        return 'done' if self.frame(st, 'cached') == 1 else '?'

    def iteration(self, fl, st, I, why):
        """the worker is about to look at the queue again, sleep or leave"""
        if st.get('t'):
            self.did('worker iterations')
            how = st.get('how', 'cached')
            oc = self.outcome(st)
            ext = self.truth(st, CTX, 'external', 'main')
            er, ret, no, rq = st.get('erased', 0), st.get('returned', 0), st.get('notified'), st.get('reqs')
            if oc == '?':
                self.bad(fl, st, 'outcome', 'a task is finished without looking at whether the filter produced a frame or an error', I)
            elif oc == 'done':
                if no == 'in':
                    self.dep_done(fl, st, I)
                if no not in ('full', 'empty'):
                    self.bad(fl, st, 'notify', 'a context completes without notifying everyone waiting for it', I)
                if ext is None:
                    self.bad(fl, st, 'outcome', 'completion does not depend on whether the request came from outside', I)
                elif ext:
                    if ret != 1:
                        self.bad(fl, st, 'callback', 'the completion callback of an external request is called %d times' % ret, I)
                    if er:
                        self.bad(fl, st, 'context', 'an external request removes the registration of an internal one', I)
                else:
                    if er != 1:
                        self.bad(fl, st, 'context', 'a completed context is unregistered %d times' % er, I)
                    if ret:
                        self.bad(fl, st, 'callback', 'a completion callback is called for an internal request', I)
                if rq == 'full' and st.get('any_req') or st.get('nset'):
                    self.bad(fl, st, 'request', 'a completed context issues requests', I)
                if how == 'run':
                    self.serial(fl, st, I, True)
            else:
                if rq != 'full':
                    self.bad(fl, st, 'request', 'requested frames are not all issued', I)
                if not st.get('nset'):
                    self.bad(fl, st, 'request', 'the number of pending requests is not recorded', I)
                if not st.get('rclr'):
                    self.bad(fl, st, 'request', 'issued requests stay in the request list', I)
                if er or ret or no in ('full', 'in'):
                    self.bad(fl, st, 'outcome', 'a context that waits for frames is completed', I)
                self.serial(fl, st, I, False)
            # reserved threads come back when the request they wait for is done
            exp = 0
            if ret:
                r = self.truth(st, CTX, 'reserveThread', 'main')
                if r is None:
                    self.bad(fl, st, 'reserve', 'the thread reserved by a blocking request is not considered at completion', I)
                exp = r or 0
            if exp:
                self.add(st, 'act', -1)
                self.did('reserved threads returned')
            if st.get('proc', 0):
                self.bad(fl, st, 'counter', 'processingThreads changes by %d over one task' % st.get('proc', 0), I)
            if st.get('infl'):
                self.bad(fl, st, 'counter', 'inflightAllocation does not return to its previous value', I)
            if st.get('pend'):
                self.bad(fl, st, 'wake', 'a task is queued without waking a thread or knowing that one is active', I)
            st.set('ran', 1)
        elif st.get('how') == 'run':
            self.bad(fl, st, 'task', 'a task was processed without being removed from the queue', I)
        if why == 'next':
            if st.get('act', 0) or st.get('idl', 0):
                self.bad(fl, st, 'counter', 'the active/idle thread counts are off by %+d/%+d after one round of the worker loop' % (st.get('act', 0), st.get('idl', 0)), I)
            if st.get('fset') == 0 and not st.get('swapped'):
                self.bad(fl, st, 'flush', 'a flush ends without resuming the deferred requests', I)
            if st.get('swapped') and (st.get('fset') != 0 or st.get('na') != 2):
                self.bad(fl, st, 'flush', 'deferred requests are resumed without %s' % ('ending the flush' if st.get('fset') != 0 else 'waking the other threads'), I)
            st.tag = (('lk', 1),)
            self.newtask(fl, st, I)
        elif why == 'sleep':
            keep = tuple(x for x in st.tag if x[0] in ('act', 'idl', 'lk', 'ran', 'other', 'scan', 'allidle', 'ai', 'fl', 'stop', 'fset', 'swapped', 'na', 'slept'))
            st.tag = keep
            self.newtask(fl, st, I)

    def serial(self, fl, st, I, done):
        fm = None
        for t, v in st.facts.items():
            if t[0] == 'ld' and is_field(t[1], NODE, 'filterMode'):
                if v == ('eq', 3):
                    fm = 1
                elif v[0] == 'eq' or v[0] == 'ne' and 3 in v[1]:
                    fm = 0
        if fm == 1:
            self.did('frame state hand-overs')
            r = st.get('sfr'), st.get('sow')
            if done and r != (1, 1):
                self.bad(fl, st, 'serial', 'an fmFrameState filter stays reserved for a request that has completed', I)
            if not done and any(r):
                self.bad(fl, st, 'serial', 'an fmFrameState filter is given up while its request is still in progress', I)
        elif fm == 0 and st.get('sfr'):
            self.bad(fl, st, 'serial', 'the frame state of a filter that has none is reset', I)

    def wait(self, fl, st, I):
        self.did('waits for work')
        first = not st.get('slept')
        self.iteration(fl, st, I, 'sleep')
        if (st.get('act', 0), st.get('idl', 0)) != (-1, 1):
            self.bad(fl, st, 'counter', 'a worker sleeps with the active/idle thread counts adjusted by %+d/%+d' % (st.get('act', 0), st.get('idl', 0)), I)
        if first:
            if st.get('ran') and not st.get('other'):
                self.bad(fl, st, 'sleep', 'a worker sleeps after running a task although it may be the only active thread', I)
            if not st.get('ran') and not st.get('scan'):
                self.bad(fl, st, 'sleep', 'a worker sleeps without having looked at every queued task', I)
            ai = st.get('allidle')
            if ai is None:
                self.bad(fl, st, 'sleep', 'a worker sleeps without checking whether it was the last active one', I)
            if ai == 1:
                if st.get('fl') is None:
                    self.bad(fl, st, 'flush', 'the last active worker sleeps without checking for a pending flush', I)
                elif st.get('fl') == 1:
                    self.bad(fl, st, 'flush', 'the last active worker sleeps although a flush is pending', I)
                elif not st.get('ai'):
                    self.bad(fl, st, 'sleep', 'the last active worker sleeps without announcing that all are idle', I)
            if st.get('stop') is None:
                self.bad(fl, st, 'sleep', 'a worker sleeps without checking whether it should stop', I)
        elif st.get('stop') != 0:
            self.bad(fl, st, 'stop', 'a worker goes back to sleep without checking whether it should stop', I)
        st.set('slept', 1)
        st.set('stop', None)
        st.tag = tuple(x for x in st.tag if x[1] is not None)

    def join(self, fl, st, I):
        self.did('thread joins')
        if st.get('stopset') != 1:
            self.bad(fl, st, 'stop', 'worker threads are joined without having been told to stop', I)
        if not st.get('na'):
            self.bad(fl, st, 'stop', 'a worker thread is joined without having been woken', I)
        if st.get('lk', 1):
            self.bad(fl, st, 'stop', 'a worker thread is joined with the task lock held', I)
        if st.get('na') == 1:
            self.bad(fl, st, 'stop', 'only one thread is woken before a particular thread is joined', I)
        st.set('na', 0)

    def ret(self, fl, st):
        F, b, n = st.stack[-1]
        I = F.blocks[b][n]
        r = self.root
        if r == 'VSThreadPool::runTasks':
            self.iteration(fl, st, I, 'stop')
            if (st.get('act', 0), st.get('idl', 0)) != (-1, 0):
                self.bad(fl, st, 'counter', 'a worker leaves with the active/idle thread counts adjusted by %+d/%+d' % (st.get('act', 0), st.get('idl', 0)), I)
            self.did('worker exits')
        elif r == 'VSThreadPool::waitForDone':
            self.did('waits for idleness ended')
            if st.get('allidle') != 1:
                self.bad(fl, st, 'idle', 'waiting for all work to finish can end while a worker is still active', I)
        elif r == 'VSThreadPool::startExternal':
            self.did('external request paths')
            q = st.get('mq', 0) + st.get('rq', 0), st.get('alt', 0)
            if sum(q) != 1:
                self.bad(fl, st, 'request', 'an external request is queued %d times' % sum(q), I)
            if st.get('pend'):
                self.bad(fl, st, 'wake', 'an external request is queued without waking a thread or knowing that one is active', I)
            rs = self.reserve(st)
            exp = -1 if rs == 1 else 0
            if rs is None:
                self.bad(fl, st, 'reserve', 'a blocking request from a worker does not give up its thread', I)
            elif st.get('act', 0) != exp:
                self.bad(fl, st, 'reserve', 'a request %s changes the active thread count by %+d' % ('a worker blocks on' if rs else 'nobody blocks on', st.get('act', 0)), I)


def delta(old, v):
    if v == old:
        return 0
    if v[0] == 'add' and v[2][0] == 'c' and v[1] == old:
        d = v[2][1]
        return d - 2**64 if d >= 2**63 else d
    if v[0] == 'add' and old[0] == 'add' and v[1] == old[1] and v[2][0] == 'c' and old[2][0] == 'c':
        return v[2][1] - old[2][1]
    if old[0] == 'add' and old[2][0] == 'c' and v == old[1]:
        return -old[2][1]
    if v[0] == 'c' and old[0] == 'c':
        return v[1] - old[1]
    return None


CELLS = tuple(('ld', ('f', ('main',), CTX, f)) for f in ('error', 'external', 'reserveThread'))


def analyse(P, rep, roots):
    import os
    tot = {}
    for r in roots:
        Fs = P.by_dem(r)
        if not Fs:
            continue
        c = Sched(rep, r)
        fl = Flow(P, c, limit=int(os.environ.get("FLOWLIMIT", "60000")))
        fl.root = Fs[0]
        try:
            n = fl.run(Fs[0], tag=(('lk', 1),))
        except TooBig as e:
            rep.cannot(r, 'too many abstract states')
            continue
        rep.count('abstract states', n)
        for k, v in c.seen.items():
            tot[k] = tot.get(k, 0) + v
    return tot
