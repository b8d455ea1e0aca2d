"""opaque calls recorded as a ghost trace: contracts say which external calls happen, in which order, with which arguments"""
from vc import *
from stdlib import *
from task import *
from contracts.pack_core import sym_int, ob


def trace(st): return st.ghost.get('trace', ())


def note(st, *ev): st.ghost['trace'] = trace(st) + (ev,)


def same_event(ex, st, a, b):
    """formula: the two events are equal"""
    if len(a) != len(b) or a[0] != b[0]: return False
    fs = []
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, str) or isinstance(y, str): fs.append(x == y if isinstance(x, str) and isinstance(y, str) else False)
        elif isinstance(x, Region) or isinstance(y, Region): fs.append(x is y)
        else: fs.append(valeq(ex, x, y))
    return And(*fs) if fs else True


def expect(ex, o, want, label='calls'):
    got = trace(o.st)
    ob(ex, o, '%s: %d expected' % (label, len(want)), len(got) == len(want))
    if len(got) != len(want): return
    for i, (g, w) in enumerate(zip(got, want)):
        ob(ex, o, '%s: %d is %s' % (label, i, w[0]), same_event(ex, o.st, g, w))
