"""C18: the property map contract."""
import core, props
from vlib import Check


def c18():
    ck = Check('C18', explanation='Every typed getter and setter of the API tables is interpreted path by path with its helpers followed: what is known about map, key, array, type and index when an element is read or stored, '
                                  'the error code left behind, the value returned, and whether the result tells truly if something was stored. The element storage of the value arrays is judged per method.',
               assumptions=['std::map and std::vector behave as specified', 'asserts are compiled in, as the build of the repository does', 'arrays hold fewer than 2^31 values'])
    P = core.core_program('flat')
    tot = props.analyse(P, ck)
    for k in sorted(tot):
        ck.count(k, tot[k])
    ck.floor('getters', 12)
    ck.floor('setters', 12)
    ck.floor('queries', 2)
    ck.floor('typed element accesses', 14)
    ck.floor('results of getters judged', 60)
    ck.floor('results of setters judged', 40)
    ck.floor('value arrays put into maps', 20)
    ck.floor('element reads judged', 6)
    ck.floor('element writes judged', 6)
    return ck.finish()
