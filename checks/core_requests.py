"""C15: every requested frame is completed exactly once."""
import core, sched
from vlib import Check

ROOTS = ['VSThreadPool::runTasks', 'VSThreadPool::startExternal', 'VSThreadPool::~VSThreadPool', 'VSThreadPool::setThreadCount', 'VSThreadPool::waitForDone']


def c15():
    ck = Check('C15', explanation='Property simulation of the worker loop, the request entry point, the thread limit and the shutdown of the thread pool: helpers are followed, the state of the current task '
                                  '(taken, produced, delivered, unregistered, called back, queued, counted) is tracked on every path and judged wherever the worker looks at the queue again, sleeps, unlocks or leaves.',
               assumptions=['the pool\'s own lists and counters are only changed under taskLock (C12)', 'paths that end in logFatal, a failed assert or an exception are not judged',
                            'of the contexts in flight the engine distinguishes the current one, the one being notified, a registered one and a new one'])
    P = core.core_program('flat')
    tot = sched.analyse(P, ck, ROOTS)
    for k in sorted(tot):
        ck.count(k, tot[k])
    ck.floor('worker iterations', 4)
    ck.floor('waiting contexts handled', 2)
    ck.floor('completion callbacks', 2)
    ck.floor('requests handled', 1)
    ck.floor('external request paths', 1)
    return ck.finish()
