"""Helpers for reading the abstract states the interpreter produces."""
from absint import *
from pp import pp, ppfacts, ppatom


def field_of(t):
    """name of the member of `this` a term or location denotes, or None"""
    while isinstance(t, tuple):
        if t[0] == 'fld' and t[1] == ('obj', 'this'):
            return t[2]
        if t[0] in ('ld', 'hv', 'lv', 'ptr', 'valof', 'deref'):
            t = t[2] if t[0] in ('hv', 'lv') else t[1]
            continue
        return None
    return None


def elem_of(loc):
    """(member holding the container, 'key'|'elem', key, path inside the element) or None"""
    path = []
    while isinstance(loc, tuple):
        if loc[0] == 'fld':
            path.append(loc[2])
            loc = loc[1]
            continue
        if loc[0] == 'mat':
            f = field_of(loc[1])
            if f is None:
                return None
            return f, 'key', loc[2], tuple(reversed(path))
        if loc[0] == 'elem':
            f = field_of(loc[1])
            if f is None:
                return None
            return f, 'elem', loc[2], tuple(reversed(path))
        if loc[0] == 'deref':
            v = loc[1]
            if v[0] in ('iter', 'find', 'begin', 'elemof'):
                f = field_of(v[1])
                if f is None:
                    return None
                return f, 'elem', v, tuple(reversed(path))
            loc = v
            continue
        if loc[0] in ('ptr', 'ld', 'valof'):
            loc = loc[1]
            continue
        return None
    return None


def complete(ask_known, spec):
    """run spec(ask) for every completion of the unknown answers;
    yields (assumed, result)"""
    todo = [{}]
    while todo:
        asm = todo.pop()
        need = []

        class Need(Exception):
            pass

        def ask(q):
            k = ask_known(q)
            if k is not None:
                return k
            if q in asm:
                return asm[q]
            need.append(q)
            raise Need()
        try:
            r = spec(ask)
        except Need:
            for b in (True, False):
                d = dict(asm)
                d[need[0]] = b
                todo.append(d)
            continue
        yield asm, r


def trace_lines(st, extra=()):
    out = ['conditions: ' + ppfacts(st)[:1500]]
    for e in st.tr:
        out.append('event: ' + ' '.join(pp(x) if isinstance(x, tuple) else str(x) for x in e)[:400])
    return out + list(extra)


class EffectCfg(Cfg):
    """emits the effects a method has on the members of `this`:
    ('set', member, key, path, value), ('erase', member, key|'iter'), ('assign', member, path, value),
    ('mut', member, operation, args)"""
    MUT = {'clear', 'push_back', 'emplace_back', 'insert', 'erase', 'pop_back', 'swap', 'emplace', 'pop_front',
           'push_front', 'extract', 'merge', 'resize', 'assign', 'append'}

    def on_call(self, eng, st, c):
        r = self.boundary(eng, st, c)
        if r is not None:
            return r
        if c.bqn.startswith('boost::log'):
            return [(st, ('unk', c.name), None)]
        if c.recvloc is not None and c.node.get('o') is not None and c.name in self.MUT and c.bqn.startswith('std::'):
            short = c.bqn[:-len(c.name) - 2].rsplit('::', 1)[-1]
            f = field_of(c.recvloc)
            if f and not (short in ('map', 'unordered_map') and c.name in ('erase', 'extract', 'emplace', 'insert', 'insert_or_assign', 'try_emplace') and len(c.args) >= 1):
                s = st.emit('mut', f, c.name, c.args)
                s, tag = eng.site(s, c.fr, c.node)
                return [(s, ('call', c.bqn, (), c.args, tag), None)]
        return None

    def boundary(self, eng, st, c):
        return None

    def on_erase(self, eng, st, c, m, k):
        f = field_of(c.recvloc)
        if f is None:
            return st
        if k[0] == 'find':
            k = k[2]
        return st.emit('erase', f, k)

    def on_store(self, eng, st, loc, val, node, fr):
        e = elem_of(loc)
        if e:
            return st.emit('set', e[0], e[2] if isinstance(e[2], tuple) else (e[2],), e[3], val)
        path = []
        l = loc
        while l[0] == 'fld' and l[1] != ('obj', 'this'):
            path.append(l[2])
            l = l[1]
        if l[0] == 'fld':
            return st.emit('assign', l[2], tuple(reversed(path)), val)
        return st


def recd(v):
    """fields of a record value"""
    if v[0] == 'rec':
        return {'.'.join(p): x for p, x in v[2]}
    if v[0] == 'mk' and v[1] == 'std::pair' and len(v[2]) == 1:
        return recd(v[2][0])
    if v[0] == 'mk' and v[1] == 'std::pair' and len(v[2]) == 2:
        return {'first': v[2][0], 'second': v[2][1]}
    return {}


def argval(fn, i):
    """what an entry argument's value may look like"""
    p = fn['p'][i]
    n = p['n'] or str(i)
    return (('arg', n), ('ld', ('obj', p['n'] or 'arg%d' % i), 0))


def calls_in(n):
    """every call node in a tree"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if x.get('k') == 'call':
                yield x
            st.extend(x.values())
        elif isinstance(x, list):
            st.extend(x)


def fn_key(fn):
    """stable name of a function (no line numbers)"""
    import re as _re
    q = fn['qn'].replace('Bloomberg::amqpprox::', '')
    return _re.sub(r'lambda@[^:]*:\d+:\d+', 'lambda', q) if not fn.get('lam') else 'handler in ' + enclosing(fn)


def enclosing(fn):
    import re as _re
    e = fn.get('enc') or fn['qn']
    if e.startswith('_ZN'):
        i, parts = 3, []
        while i < len(e) and e[i] in 'KVr':
            i += 1
        while i < len(e) and e[i].isdigit():
            m = _re.match(r'\d+', e[i:])
            n = int(m.group(0))
            i += len(m.group(0))
            parts.append(e[i:i + n])
            i += n
        e = '::'.join(parts)
    return e.replace('Bloomberg::amqpprox::', '')


def chain(ctx, entry):
    out = []
    while entry is not None:
        out.append('in %s (registered at %s:%s)' % (entry.name(ctx.P), entry.site[1], entry.site[2]))
        entry = entry.parent
    return out


def enum_is(E, st, v, enum, name):
    """is v the enumerator `name` on this path? (a value that is none of the others is the one left)"""
    def eq(n):
        at, p = E.atom_eq(v, ('enum', n, enum[n]))
        if at is True or at is False:
            return at == p
        d = E.decide(st, at)
        return None if d is None else d == p
    r = eq(name)
    if r is not None:
        return r
    o = [eq(n) for n in enum if n != name]
    if any(x is True for x in o):
        return False
    if o and all(x is False for x in o):
        return True
    return None
