"""Short printing of terms and locations."""
import re


def pn(q):
    return q.replace('Bloomberg::amqpprox::', '')


def pp(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    try:
        return pp_(t, d)
    except Exception:
        return '(' + ' '.join(pp(x, d + 1) for x in t) + ')'


def pp_(t, d):
    if not t:
        return '()'
    if d > 14:
        return '..'
    k = t[0]
    P = lambda x: pp(x, d + 1)
    if k == 'int':
        return str(t[1])
    if k == 'enum':
        return t[1].rsplit('::', 1)[-1]
    if k == 'str':
        return '"%s"' % t[1]
    if k in ('null', 'void'):
        return k
    if k == 'ld':
        return P(t[1]) + ("'%d" % t[2] if t[2] else '')
    if k == 'fld':
        if t[1] == ('obj', 'this'):
            return 'this.' + t[2]
        return P(t[1]) + '.' + str(t[2])
    if k == 'obj':
        return t[1]
    if k == 'deref':
        return '*' + P(t[1])
    if k == 'ptr':
        return '&' + P(t[1])
    if k in ('mat', 'elem'):
        return '%s[%s]' % (P(t[1]), P(t[2]) if isinstance(t[2], tuple) else t[2])
    if k == 'arg':
        return 'arg:' + t[1]
    if k == 'glob':
        return pn(t[1])
    if k == 'getf':
        return P(t[1]) + '.' + str(t[2])
    if k == 'call':
        r = P(t[2]) + '.' if t[2] else ''
        return '%s%s(%s)' % (r, pn(t[1]).rsplit('::', 1)[-1], ', '.join(P(x) for x in t[3]))
    if k == 'lin':
        s = ' + '.join(('%s' % P(x) if c == 1 else '%d*%s' % (c, P(x))) for x, c in t[2])
        return '(%s%s)' % (s, ' + %d' % t[1] if t[1] else '')
    if k == 'clos':
        return 'lambda@' + re.sub(r'.*?(\w+\.(cpp|h):\d+).*', r'\1', t[1][0], flags=re.S)
    if k == 'pbind':
        return 'bind(%s; %s)' % (P(t[1]), ', '.join(P(x) for x in t[2]))
    if k == 'fn':
        return pn(t[2])
    if k in ('var', 'alias'):
        return '%s%s@%s' % (k[0], t[1], t[2])
    if k == 'hv':
        return 'hv%s(%s)' % (t[1][0] if isinstance(t[1], tuple) else t[1], P(t[2]))
    if k == 'valof':
        return P(t[1])
    if k == 'rec':
        return '{%s|%s}' % (P(t[1]), ', '.join('.'.join(p) + '=' + P(x) for p, x in t[2]))
    return '%s(%s)' % (k, ', '.join(P(x) if isinstance(x, tuple) else str(x) for x in t[1:]))


def ppatom(a, v):
    k = a[0]
    if k == '==':
        return '%s %s %s' % (pp(a[2]), '==' if v else '!=', pp(a[1]))
    if k == '<':
        return '%s %s %s' % (pp(a[1]), '<' if v else '>=', pp(a[2]))
    if k == 't':
        return ('' if v else '!') + pp(a[1])
    return '%s%s(%s)' % ('' if v else '!', k, ', '.join(pp(x) for x in a[1:]))


def ppfacts(st):
    return ' && '.join(ppatom(a, v) for a, v in st.facts.items())
