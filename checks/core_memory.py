"""C20: frame memory is counted exactly."""
import core, memory
from vlib import Check


def c20():
    ck = Check('C20', explanation='Each entry point of the memory manager is interpreted path by path with its helpers followed: which block comes from where and ends up where, and by which amounts the counts change on '
                                  'the way. Sizes are terms over the request and compared on a grid; plane objects and the reports to the user are judged against the manager.',
               assumptions=['std::multimap behaves as specified', 'the system allocator returns blocks of the size asked for', 'the lock held around list and counts is C12'])
    P = core.core_program('flat')
    tot = memory.analyse(P, ck)
    for k in sorted(tot):
        ck.count(k, tot[k])
    ck.floor('entry points of the memory manager', 5)
    ck.floor('movements of blocks judged', 8)
    ck.floor('sizes of blocks judged', 12)
    ck.floor('kept blocks released at the end', 1)
    ck.floor('answers judged', 40)
    ck.floor('offsets of blocks compared', 1)
    ck.floor('reports judged', 4)
    ck.floor('ends of plane functions judged', 3)
    return ck.finish()
