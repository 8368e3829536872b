"""C26: vspipe reports success only for complete output."""
import build
import core
import pipe
from vlib import Check


def c26():
    ck = Check('C26', explanation='main of vspipe is followed along every path together with its helpers and the function called for finished frames: operations nobody has asked about, operations that have failed and streams that '
                                  'hold data not known to have arrived are carried along, and none of them may be left where the status is 0. The lock, the counters, the requests and the record of errors of the callback are judged at each change.',
               assumptions=['the C library reports a failed write by the result of the call, ferror, fflush or fclose', 'the core calls the callback exactly once per request (C15)',
                            'an exception that leaves main ends the process with a failure'])
    P = core.Program([build.REPO + '/src/vspipe/vspipe.cpp'], 'flat')
    try:
        pipe.analyse(P, ck)
    except pipe.TooMany as x:
        ck.cannot(str(x), 'too many paths')
    ck.floor('ways to end', 10)
    ck.floor('operations that can fail', 40)
    ck.floor('writes of a finished frame', 5)
    ck.floor('changes to what the waiting thread looks at', 10)
    ck.floor('requests made by the callback', 2)
    ck.floor('frames written in their turn', 1)
    return ck.finish()
