"""Model of text built with streams and std::string: a text is ('text', items), an item being ('str', s) or the value printed."""
from absint import *


def items(v):
    if v[0] == 'text':
        return v[1]
    if v[0] == 'concat':
        return join(items(v[1]), items(v[2]))
    if v[0] == 'call' and v[1].endswith('::to_string') and v[2] and not v[3]:
        return (('text-of', v[2]),)
    if v[0] == 'mk' and v[1].startswith('std::') and 'basic_string' in v[1]:
        if not v[2]:
            return ()
        if len(v[2]) == 1 or v[2][1][0] in ('unk', 'void', 'mk'):
            return items(v[2][0])
    if v == ('str', ''):
        return ()
    return (v,)


def join(a, b):
    a, b = list(a), list(b)
    while a and b and a[-1][0] == 'str' and b[0][0] == 'str':
        a[-1:] = [('str', a[-1][1] + b[0][1])]
        b = b[1:]
    return tuple(a + b)


def text(v):
    """normal form of a text value"""
    i = items(v)
    if not i:
        return ('str', '')
    if len(i) == 1 and i[0][0] == 'str':
        return i[0]
    return ('text', i)


def text_call(eng, st, c):
    """-> result of a call that builds text, or None"""
    n, b = c.name, c.bqn
    if n == 'operator<<' and 'basic_ostream' in c.node.get('t', '') and not eng.P.functions.get(c.fn, {}).get('b'):
        if c.node.get('o') is not None and len(c.args) == 1:
            loc, x = c.recvloc, c.args[0]
        elif len(c.args) == 2:
            loc, x = c.locs[0], c.args[1]
        else:
            return None
        if loc is None:
            return None
        fn = c.fn or ''
        if fn.endswith(('c', 'h', 'a')) and num(x) is not None and fn.startswith(('_ZStls', '_ZNSols')):
            x = ('str', chr(num(x) & 255))
        elif x[0] in ('fn',) or 'PFRS' in fn:
            x = ('manip', x)
        elif not b.startswith('std::') and x[0] != 'str':
            x = ('text-of', x)
        s = st.copy()
        k = ('fld', loc, '$text')
        s.mem[k] = ('text', join(items(s.mem.get(k, ('str', ''))), items(x)))
        return [(s, ('unk', 'stream'), loc)]
    short = b.rsplit('::', 2)[-2] if b.count('::') > 1 else ''
    if n == 'str' and short in ('basic_stringstream', 'basic_ostringstream') and c.recvloc is not None:
        if not c.args:
            return [(st, text(st.mem.get(('fld', c.recvloc, '$text'), ('unk', 'stream content'))), None)]
        s = st.copy()
        s.mem[('fld', c.recvloc, '$text')] = text(c.args[0])
        return [(s, ('void',), None)]
    if b == 'std::to_string':
        return [(st, ('text', (c.args[0],)), None)]
    if short == 'basic_string' and c.recvloc is not None and n in ('append', 'operator+=', 'push_back') and len(c.args) == 1:
        x = c.args[0]
        if num(x) is not None:
            x = ('str', chr(num(x) & 255))
        s = eng.store(st, c.recvloc, ('text', join(items(c.recv), items(x))), c.node, c.fr)
        return [(s, ('void',), c.recvloc)]
    if n == 'operator+' and b.startswith('std::') and len(c.args) == 2 and 'basic_string' in c.node.get('t', ''):
        i = []
        for x in c.args:
            i.append((('str', chr(num(x) & 255)),) if num(x) is not None else items(x))
        return [(st, ('text', join(*i)), None)]
    return None
