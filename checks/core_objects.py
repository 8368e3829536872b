"""C16: reference counts balance in the core. C17: copy on write."""
import core, objs, cow
from vlib import Check


def c16():
    ck = Check('C16', explanation='Every function of the API tables, the frame and node constructors and destructors, plane sharing and the frame delivery are interpreted path by path with a credit per reference '
                                  '(obtained, handed over, put into a holder); the counting methods and the smart pointer members are judged by what they add to the count against who holds the object before and after.',
               assumptions=['containers of smart pointers destroy and copy their elements', 'paths that end in logFatal, a failed assert or an exception are not judged'])
    P = core.core_program('flat')
    tot = objs.analyse(P, ck)
    for k in sorted(tot):
        ck.count(k, tot[k])
    ck.floor('API functions in the tables', 80)
    ck.floor('counting paths', 8)
    ck.floor('smart pointer paths', 30)
    ck.floor('function exits judged', 150)
    ck.floor('references put into smart pointers', 20)
    ck.floor('plane pointers set', 5)
    return ck.finish()


def c17():
    ck = Check('C17', explanation='Every write to a property map storage, a property array or a frame plane in the core is judged on every path: the object was made by the function, was tested to be held once, or '
                                  'detached by a helper (followed). Helpers failing on their own are judged in the context of all their callers. unique() and the copy constructors are judged themselves.',
               assumptions=['paths that end in logFatal, a failed assert or an exception are not judged', 'an object tested to be held once is not shared concurrently: doing so needs a second reference, which only its single owner can create'])
    P = core.core_program('flat')
    tot = cow.analyse(P, ck)
    for k in sorted(tot):
        ck.count(k, tot[k])
    ck.floor('functions writing shared objects', 6)
    ck.floor('writes judged', 10)
    ck.floor('uniqueness tests', 3)
    ck.floor('copies judged', 8)
    ck.floor('write pointers judged', 2)
    return ck.finish()
