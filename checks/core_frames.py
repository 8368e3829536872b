"""C19: frames match what was declared and own the memory behind their planes."""
import core, frames
from vlib import Check


def c19():
    ck = Check('C19', explanation='The function that takes frames from filters, the frame constructors and the plane accessors are interpreted path by path; the conditions collected on a path and the sizes, strides and '
                                  'addresses it computes are terms over the fields of node, frame and arguments, and are compared on a grid of declarations, formats, dimensions, plane numbers and source frames '
                                  'that tells the rules apart.',
               assumptions=['formats have passed the validity test of their creation (C04)', 'dimensions times bytes per sample fit 63 bits', 'plane memory starts aligned'])
    P = core.core_program('flat')
    tot = frames.analyse(P, ck)
    for k in sorted(tot):
        ck.count(k, tot[k])
    ck.floor('plane accesses judged', 2000)
    ck.floor('plane allocations judged', 4)
    ck.floor('finished frames judged', 8)
    ck.floor('constructors', 5)
    ck.floor('shared planes judged', 2)
    ck.floor('copied channels judged', 1)
    ck.floor('places where a frame is handed on', 6)
    ck.floor('kinds of frames judged against the declaration', 25)
    return ck.finish()
