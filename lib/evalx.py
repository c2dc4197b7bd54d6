"""Evaluation of a summary (the paths of a function over unknown state) at a point: which paths apply there, and what they yield."""
from absint import *
from pp import pp

M64 = (1 << 64) - 1


class NoValue(Exception):
    pass


def val(t, env):
    if t in env:
        return env[t]
    k = t[0]
    if k in ('int',):
        return t[1]
    if k == 'enum':
        return t[2]
    if k == 'bool':
        return int(t[1])
    if k == 'lin':
        return t[1] + sum(c * val(x, env) for x, c in t[2])
    if k == 'call' and t[1].endswith('::max') and not t[3]:
        return M64
    if k == 'call' and t[1] in ('std::min', 'std::max') and len(t[3]) == 2:
        return (min if t[1] == 'std::min' else max)(val(t[3][0], env), val(t[3][1], env))
    if k in ('ite',):
        return val(t[2] if holds(t[1], env) else t[3], env)
    raise NoValue(pp(t))


def holds(a, env):
    if isinstance(a, bool):
        return a
    if a[0] == '==':
        return val(a[1], env) == val(a[2], env)
    if a[0] == '<':
        return val(a[1], env) < val(a[2], env)
    if a[0] == 't':
        return val(a[1], env) != 0
    if a[0] == 'not':
        return not holds(a[1], env)
    raise NoValue(pp(a))


def paths_at(outs, env):
    """the outcomes whose path conditions hold at env"""
    r = []
    for o in outs:
        try:
            if all(holds(a, env) == v for a, v in o[0].facts.items()):
                r.append(o)
        except NoValue:
            r.append(o)
    return r
