"""A small model of std::vector: appends and clears are tracked as terms."""
from absint import *

NONE = ('list', 'vec', ())


def _empty(v):
    return v[0] == 'mk' and v[1].startswith('std::vector') and all(x[0] == 'mk' and 'allocator' in str(x[1]) for x in v[2]) or v == NONE


def vec_call(eng, st, c):
    b, n, a = c.bqn, c.name, c.args
    if not b.startswith('std::vector::') or c.recvloc is None or c.node.get('o') is None:
        return None
    v = eng.load(st, c.recvloc)
    if _empty(v):
        v = NONE

    def put(x, r=('void',)):
        return [(eng.store(st, c.recvloc, x, c.node, c.fr), r, None)]
    if n == 'clear' or n == 'resize' and num(a[0]) == 0:
        return put(NONE)
    if n in ('push_back', 'emplace_back') and len(a) == 1:
        x = a[0]
        return put(('list', 'vec', v[2] + (x,)) if v[0] == 'list' else ('app', v, x))
    if n == 'assign' and len(a) == 2 and num(a[0]) == 1:
        return put(('list', 'vec', (a[1],)))
    if n == 'size' and v[0] == 'list':
        return [(st, ('int', len(v[2])), None)]
    if n == 'empty' and v[0] in ('list', 'app'):
        return [(st, FALSE if v[0] == 'app' or v[2] else TRUE, None)]
    if n == 'front' and not a:
        if v[0] == 'list' and v[2]:
            return [(st, v[2][0], None)]
        l = ('elem', v, ('int', 0))
        return [(st, eng.load(st, l), l)]
    if n in ('operator[]', 'at') and v[0] == 'list' and num(a[0]) is not None and num(a[0]) < len(v[2]):
        return [(st, v[2][num(a[0])], None)]
    return None
