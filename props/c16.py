"""C16: what is encoded is what is decoded."""
import re
from checklib import *
from tab import *
from terms import lin_add, to_lin

EXPLANATION = (
    'Every encoder and decoder is executed symbolically down to the memcpy calls, so a message becomes a layout: '
    'which value, in which wire type, at which distance from where the buffer stood. Encoder and decoder layouts are '
    'compared with one table of the AMQP 0-9-1 field tags and handshake messages, and the buffer must end up exactly '
    'behind them. Nested values, arrays and tables are handled by induction: inside one of them the others are taken '
    'to occupy their own encoding. Loops over fields are followed for zero, one and two fields.')
BU, TY, FV, FT, ME = (NS + x for x in ('Buffer', 'Types', 'FieldValue', 'FieldTable', 'methods::'))
CAP = (1 << 31) - 1

STUB = {'decodeFieldValue': 'value', 'encodeFieldValue': 'value', 'decodeFieldArray': 'array', 'encodeFieldArray': 'array',
        'decodeFieldTable': 'table', 'encodeFieldTable': 'table'}


def wtype(t):
    """how a C++ type lies on the wire: (byte order, signedness, bits)"""
    t = t.replace('const ', '').replace(' const', '').replace('&', '').replace('*', '').strip()
    m = re.match(r'boost::endian::endian_(?:arithmetic|buffer)<boost::endian::order::(\w+), ([\w ]+), (\d+)', t)
    if m:
        u = 'u' if m.group(2).startswith('unsigned') else 's'
        return (m.group(1) if m.group(3) != '8' else 'any', u, int(m.group(3)))
    if t in ('char', 'signed char', 'int8_t', 'std::int8_t'):
        return ('any', 's', 8)
    if t in ('bool', 'unsigned char', 'uint8_t', 'std::uint8_t', 'std::byte'):
        return ('any', 'u', 8)
    return None


def pointee(e):
    """type behind a memcpy argument"""
    while e.get('k') in ('icast', 'cast', 'paren'):
        e = e['e']
    if e.get('k') == 'un' and e['op'] == '&':
        return e['e'].get('t')
    t = e.get('t') or ''
    return t.rstrip()[:-1] if t.rstrip().endswith('*') else None


class Wire(Cfg):
    linear = True
    unroll = 2
    distinct = True

    def __init__(self, top=None):
        self.notes = set()
        self.top = top          # the Types function that is looked into

    def inline(self, eng, fn):
        return not fn['qn'].startswith(FV + '::') and 'ostream' not in fn['rt']

    def where(self, eng, st, b):
        return lin_add(eng.load(st, ('fld', b, 'd_data')), eng.load(st, ('fld', b, 'd_offset')))

    def advance(self, eng, st, b, n):
        """b.skip(n), where n bytes are there"""
        eng.ranges[n] = (0, CAP)
        o = eng.load(st, ('fld', b, 'd_offset'))
        left = lin_add(lin_add(eng.load(st, ('fld', b, 'd_length')), o, -1), n, -1)
        s = eng.assume(st, ('<', left, ('int', 0)), False)
        return eng.store(s, ('fld', b, 'd_offset'), lin_add(o, n))

    def on_call(self, eng, st, c):
        b, n = c.bqn, c.name
        if n in ('memcpy', 'memmove') and len(c.args) == 3:
            return self.memcpy(eng, st, c)
        fn = eng.P.functions.get(c.fn)
        if b.startswith(TY + '::') and n in STUB and fn and fn['qn'] != self.top:
            kind = STUB[n]
            if n[0] == 'e':
                at = self.where(eng, st, c.locs[0])
                v = c.args[1]
                i = [t[2][1] for t in subs(v) if t[0] == 'elem' and isinstance(t[2], tuple) and t[2][0] == 'int'][:1]
                k = sum(1 for e in st.tr if e[0] == 'put' and e[3] == kind)
                if kind == 'value' and i and i[0] != k:
                    self.notes.add((k, i[0]))
                s = st.emit('put', at, ('enclen', kind, v), kind, v, kind)
                return [(self.advance(eng, s, c.locs[0], ('enclen', kind, v)), TRUE, None), (st.emit('full'), FALSE, None)]
            l = eng.deref(st, c.args[0])
            at = self.where(eng, st, c.locs[1])
            s = st.emit('nested', kind, at, eng.load(st, l), l)
            s = eng.store(s, l, ('dec', kind, at))
            return [(self.advance(eng, s, c.locs[1], ('declen', kind, at)), TRUE, None), (st.emit('short'), FALSE, None)]
        if b.startswith(FV + '::'):
            if n == 'type' and not c.args:
                v = ('fvtype', eng.load(st, c.recvloc))
                eng.ranges[v] = (-128, 127)
                return [(st, v, None)]
            if n == 'value':
                t = cxx(fn['rt'])
                v = ('fvval', t, eng.load(st, c.recvloc))
                return [(st, v, None)]
            if c.node.get('k') == 'ctor' and len(c.args) == 2:
                return [(st, ('mk', FV, (c.args[0], ('kind', cxx(fn['p'][1]['t'])), c.args[1])), None)]
        seq = b.startswith(('std::basic_string::', 'std::vector::'))
        if seq and len(c.args) >= 2 and (n == 'assign' or c.node.get('k') == 'ctor') and c.args[0][0] in ('lin', 'arg', 'ld'):
            p, q = c.args[:2]
            if BASE in to_lin(q)[1]:
                q = lin_add(q, p, -1)
            v = ('bytes', p, q)
            if n == 'assign':
                return [(eng.store(st, c.recvloc, v), v, c.recvloc)]
            return [(st, v, None)]
        if b.startswith('std::vector::') and n == 'data' and not c.args:
            return [(st, ('vdata', c.recvloc, eng.load(st, c.recvloc)), None)]
        if b.startswith('std::vector::') and n == 'resize':
            return [(eng.store(st, c.recvloc, ('sized', c.args[0])), ('unit',), None)]
        if b.startswith('std::vector::') and n in ('push_back', 'emplace_back'):
            return [(st.emit('push', c.recvloc, tuple(c.args)), ('unit',), None)]
        return None

    def on_store(self, eng, st, loc, val, node, fr):
        if loc[0] == 'elem':
            p = eng.load(st, loc[1])
            if p[0] == 'arg' or p[0] == 'lin':
                return st.emit('put', lin_add(p, loc[2]), ('int', 1), B8, val, 'num')
        return st

    def memcpy(self, eng, st, c):
        d, s, n = (addr(eng, st, x) for x in c.args)
        behind = lambda i, v: wtype(v[0] == 'ptr' and eng.ptr_type.get(v[1]) or '') or wtype(pointee(c.node['a'][i]) or '')
        t = behind(0, d)
        if d[0] == 'ptr' and t and n == ('int', t[2] // 8):
            v = ('wire', t, s)
            eng.ranges[v] = (0, (1 << t[2]) - 1) if t[1] == 'u' else (-(1 << t[2] - 1), (1 << t[2] - 1) - 1)
            return [(eng.store(st, d[1], v), d, None)]
        if d[0] == 'vdata':
            ok = d[2] == ('sized', n)
            return [(eng.store(st, d[1], ('bytes', s, n)) if ok else st.emit('misfit', d[2], n), d, None)]
        if s[0] == 'vdata':
            s = s[2]
        t = behind(1, s)
        if s[0] == 'ptr' and t:
            return [(st.emit('put', d, n, t, eng.load(st, s[1]), 'num'), d, None)]
        return [(st.emit('put', d, n, 'bytes', s, 'bytes'), d, None)]


def addr(eng, st, v):
    if v[0] == 'ptr' and v[1][0] == 'elem' and v[1][1][0] == 'var':
        p = eng.load(st, v[1][1])
        if p[0] in ('arg', 'lin'):
            return lin_add(p, v[1][2])
    return v


def cxx(t):
    return t.replace('const ', '').replace(' &', '').replace('unsigned char', 'uint8_t').strip()


BASE, OFF, LEN = ('base',), ('off0',), ('len0',)


def bufparam(f):
    for p in f['p']:
        if p['t'].replace('const ', '').strip() in (BU + ' &', 'Buffer &'):
            return p
    return None


def start(E, f):
    st = St()
    p = bufparam(f)
    if p is not None:
        l = ('obj', p['n'])
        E.ranges[OFF] = E.ranges[LEN] = (0, CAP)
        st.mem[('fld', l, 'd_data')] = BASE
        st.mem[('fld', l, 'd_offset')] = OFF
        st.mem[('fld', l, 'd_length')] = LEN
        st.facts[('<', LEN, OFF)] = False
    return st


# -- the wire format ----------------------------------------------------------------
B8 = ('any', 'u', 8)


def be(bits, sg='u'):
    return ('any' if bits == 8 else 'big', sg, bits)


# message: (method id, [(type, accessor or literal)], how many of them the decoder keeps, reads all)
MESSAGES = {
    'Start': (10, [('u8', 'versionMajor'), ('u8', 'versionMinor'), ('table', 'properties'), ('long', 'mechanisms'), ('long', 'locales')], None),
    'StartOk': (11, [('table', 'properties'), ('short', 'mechanism'), ('long', 'response'), ('short', 'locale')], None),
    'Tune': (30, [('u16', 'channelMax'), ('u32', 'frameMax'), ('u16', 'heartbeatInterval')], None),
    'TuneOk': (31, [('u16', 'channelMax'), ('u32', 'frameMax'), ('u16', 'heartbeatInterval')], None),
    'Open': (40, [('short', 'virtualHost'), ('u8', 0), ('u8', 0)], 1),
    'OpenOk': (41, [('u8', 0)], [('short', None)]),
    'Close': (50, [('u16', 'replyCode'), ('short', 'replyString'), ('u16', 'classId'), ('u16', 'methodId')], None),
    'CloseOk': (51, [], None),
}
I64, U64, STR, VEC, ARR, TAB = 'int64', 'uint64', 'string', 'bytes', 'array', 'table'
# tag: (kind of C++ value, layout)
TAGS = {'t': ('bool', ('num', 8, None)), 'b': (I64, ('num', 8, 's')), 'B': (U64, ('num', 8, 'u')), 's': (I64, ('num', 16, 's')),
        'u': (U64, ('num', 16, 'u')), 'I': (I64, ('num', 32, 's')), 'i': (U64, ('num', 32, 'u')), 'l': (I64, ('num', 64, 's')),
        'L': (I64, ('num', 64, 's')), 'f': (VEC, ('fixed', 4)), 'd': (VEC, ('fixed', 8)), 'D': (VEC, ('fixed', 5)), 'S': (STR, ('long',)),
        'A': (ARR, ('nested', 'array')), 'T': (U64, ('num', 64, 'u')), 'F': (TAB, ('nested', 'table')), 'V': (None, ()), 'x': (VEC, ('long',))}


def kind(t):
    if 'shared_ptr' in t and 'FieldTable' in t:
        return TAB
    if t.startswith('std::vector'):
        return ARR if 'FieldValue' in t else VEC
    if 'basic_string' in t:
        return STR
    return {'long': I64, 'long long': I64, 'int64_t': I64, 'unsigned long': U64, 'unsigned long long': U64, 'uint64_t': U64}.get(t, t)


def plus(*xs):
    t = ('int', 0)
    for x in xs:
        t = lin_add(t, x if isinstance(x, tuple) else ('int', x))
    return t


def plain(v):
    while v[0] == 'trunc':
        v = v[3]
    return v


def narrow(v, bits):
    """v, where only `bits` low bits matter"""
    while v[0] == 'trunc' and v[1] >= bits:
        v = v[3]
    return v


class Layout:
    """what an encoder put where, relative to `base`"""

    def __init__(self, st, base):
        self.puts = []
        self.bad = None
        for e in st.tr:
            if e[0] == 'misfit':
                self.bad = 'the copy into a vector does not match its size'
            if e[0] != 'put' or e[2] == ('int', 0):
                continue
            rel = lin_add(e[1], base, -1)
            self.puts = [p for p in self.puts if p[0] != rel or p[1] != e[2]] + [(rel, e[2], e[3], e[4])]

    def items(self, end):
        """in order, without gaps or overlaps; None if that is not so"""
        cur, left, out = ('int', 0), list(self.puts), []
        while left:
            here = [p for p in left if p[0] == cur]
            if len(here) != 1:
                self.bad = 'there is a gap or an overlap after %s' % (pp(out[-1][3])[:60] if out else 'the start')
                return None
            left.remove(here[0])
            out.append(here[0])
            cur = lin_add(cur, here[0][1])
        if cur != end:
            self.bad = 'what is written ends at %s but the buffer moves on by %s' % (pp(cur)[:70], pp(end)[:70])
            return None
        return out


def number(p, bits, v=None):
    t = p[2]
    return isinstance(t, tuple) and t[2] == bits and t[0] in ('any', 'big') and p[1] == ('int', bits // 8) and (v is None or narrow(p[3], bits) == v or p[3] == v)


def match(items, spec):
    """spec: [(type, value)] -> error or None"""
    i = 0
    for t, v in spec:
        want = t if not isinstance(v, tuple) else '%s %s' % (t, pp(v)[:50])
        if t in ('u8', 'u16', 'u32', 'u64'):
            if i >= len(items) or not number(items[i], int(t[1:]), v):
                return 'expected %s, found %s' % (want, found(items, i))
            i += 1
        elif t in ('short', 'long'):
            if i >= len(items) or not number(items[i], 8 if t == 'short' else 32, ('size', v)):
                return 'expected the length of %s, found %s' % (want, found(items, i))
            i += 1
            if i >= len(items) or items[i][2] != 'bytes' or items[i][1] != ('size', v) or items[i][3] != v:
                return 'expected the bytes of %s, found %s' % (want, found(items, i))
            i += 1
        elif t == 'raw':
            if i >= len(items) or items[i][2] != 'bytes' or items[i][1] != ('size', v) or items[i][3] != v:
                return 'expected %s, found %s' % (want, found(items, i))
            i += 1
        else:
            if i >= len(items) or items[i][2] != t or items[i][3] != v:
                return 'expected %s, found %s' % (want, found(items, i))
            i += 1
    return None if i == len(items) else 'more is written: %s' % found(items, i)


def found(items, i):
    return 'nothing' if i >= len(items) else '%s %s' % (items[i][2] if isinstance(items[i][2], str) else '%s-endian %s%d' % items[i][2], pp(items[i][3])[:80])


def expect(spec, cur):
    """[(type, name)] read from cur on -> ({name: term}, end)"""
    out = {}
    for t, n in spec:
        v, cur = read(t, cur)
        out.setdefault(n, v)
    return out, cur


def read(t, cur):
    if t[0] == 'u' and t[1:].isdigit():
        return ('wire', be(int(t[1:])), cur), plus(cur, int(t[1:]) // 8)
    if t in ('short', 'long'):
        w = 8 if t == 'short' else 32
        n = ('wire', be(w), cur)
        at = plus(cur, w // 8)
        return ('bytes', at, n), plus(at, n)
    return ('dec', t, cur), plus(cur, ('declen', t, cur))


def short_of(E, st, total):
    """on this path fewer than `total` bytes are available"""
    for n in total[2] if total[0] == 'lin' else ():
        if n[0][0] in ('declen', 'enclen', 'size'):
            E.ranges.setdefault(n[0], (0, CAP))
        elif n[0][0] == 'wire':
            E.ranges.setdefault(n[0], (0, (1 << n[0][1][2]) - 1))
    return E.entails(st, plus(total, -1, lin_add(OFF, LEN, -1)))


def true(v):
    return v in (TRUE, ('int', 1))


def final(E, st, f, m):
    return E.load(st, ('fld', ('obj', bufparam(f)['n']), m))


class X:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.keeps_v = False

    def fns(self, qn, required=False):
        r = self.ctx.fns(qn)
        if required:
            self.ctx.require(r, qn)
        return r

    def engine(self, cfg):
        self.E = Engine(self.P, cfg)
        self.es = getattr(self, 'es', []) + [self.E]
        return self.E

    def rule(self, t):
        self.ctx.rule(t)

    def add(self, n, k):
        self.ctx.count(n, k)

    def ob(self, what, ok, file, line, fn, text, path=None):
        self.ctx.count(what)
        if not ok:
            self.ctx.violation('%s|%s|%s' % (base_qn(fn), what, re.sub(r'\d+', '', text)[:90]), text,
                               where='%s:%s %s' % (file.replace(REPO + '/', ''), line, fn.replace(NS, '')), path=path)


def run(ctx):
    ctx = X(ctx)
    ctx.rule('AMQP 0-9-1 layouts: connection methods (class 10), field tags, strings, arrays, tables, frame and method headers')
    ctx.rule('encoder layout == table == decoder layout; the buffer ends behind them; a refusal only for lack of room, data or a string over 255 bytes')
    values(ctx)
    sequences(ctx)
    messages(ctx)
    frames(ctx)
    for E in ctx.es:
        ctx.ctx.done(E)


def explore(ctx, f, top=None):
    E = ctx.engine(Wire(top))
    outs, thrown = E.run(f, st=start(E, f))
    ctx.add('paths', len(outs))
    return E, outs


def messages(ctx):
    P = ctx.P
    for name, (mid, spec, keeps) in MESSAGES.items():
        cl = ME + name
        for what, want in (('classType', 10), ('methodType', mid)):
            for f in ctx.fns(cl + '::' + what):
                E = ctx.engine(Wire())
                for st, v, l in E.run(f)[0]:
                    ctx.ob('ids', v == ('int', want), f['file'], f['l'], f['qn'],
                           '%s::%s is %s, in AMQP 0-9-1 it is %d' % (name, what, pp(v)[:40], want))
        for f in ctx.fns(cl + '::encode', required=True):
            E, outs = explore(ctx, f)
            obj = [('obj', p['n']) for p in f['p'] if name in p['t']][0]
            vals = [(t, access(ctx, E, cl, n, obj) if isinstance(n, str) else ('int', n)) for t, n in spec]
            encoder(ctx, E, f, outs, vals, name)
        for f in ctx.fns(cl + '::decode', required=name != 'CloseOk'):
            E, outs = explore(ctx, f)
            ptr = [('deref', ('arg', p['n'])) for p in f['p'] if name in p['t']][0]
            exp, end = expect(keeps if isinstance(keeps, list) else spec, plus(BASE, OFF))
            accepted = False
            for st, v, l in outs:
                if true(v):
                    accepted = True
                    for n, want in exp.items():
                        if not isinstance(n, str):
                            continue
                        got = access(ctx, E, cl, n, ptr, st)
                        ctx.ob('decoded', got == want, f['file'], f['l'], f['qn'],
                               '%s decoded: %s is %s, in the layout it is %s' % (name, n, pp(got)[:120], pp(want)[:120]), trace_lines(st))
                    if keeps != 1:
                        got = plus(BASE, final(E, st, f, 'd_offset'))
                        ctx.ob('decoded', got == end, f['file'], f['l'], f['qn'],
                               '%s decoded: the buffer ends at %s, the layout at %s' % (name, pp(got)[:120], pp(end)[:120]), trace_lines(st))
                elif not any(e[0] == 'short' for e in st.tr):
                    ctx.ob('refused', short_of(E, st, lin_add(end, plus(BASE, OFF), -1)), f['file'], f['l'], f['qn'],
                           'a complete %s may be refused' % name, trace_lines(st))
            ctx.ob('decoded', accepted, f['file'], f['l'], f['qn'], 'no %s is ever accepted' % name)


def encoder(ctx, E, f, outs, vals, name, head=()):
    accepted = False
    for st, v, l in outs:
        if true(v):
            accepted = True
            L = Layout(st, plus(BASE, OFF))
            items = L.items(lin_add(final(E, st, f, 'd_offset'), OFF, -1))
            err = L.bad or match(items, vals)
            ctx.ob('encoded', not err, f['file'], f['l'], f['qn'], '%s encoded: %s' % (name, err), trace_lines(st))
        elif not any(e[0] == 'full' for e in st.tr):
            total = plus(*[size(t, x) for t, x in vals])
            ok = short_of(E, st, total) or any(t == 'short' and over(E, st, x) for t, x in vals)
            ctx.ob('refused', ok, f['file'], f['l'], f['qn'], 'encoding %s may fail although there is room' % name, trace_lines(st))
    ctx.ob('encoded', accepted, f['file'], f['l'], f['qn'], 'no %s is ever encoded' % name)


def over(E, st, x):
    E.ranges.setdefault(('size', x), (0, CAP))
    return E.entails(st, plus(('size', x), -256))


def size(t, x):
    if t[0] == 'u' and t[1:].isdigit():
        return ('int', int(t[1:]) // 8)
    if t in ('short', 'long'):
        return plus(('size', x), 1 if t == 'short' else 4)
    if t == 'raw':
        return ('size', x)
    return ('enclen', t, x)


def access(ctx, E, cl, n, obj, st=None):
    f = [f for f in ctx.fns(cl + '::' + n) if not f['p']]
    if not f:
        ctx.ob('decoded', False, 'libamqpprox', 0, cl, 'accessor %s::%s not found' % (cl, n))
        return ('none',)
    outs = E.run(f[0], this=('ptr', obj), st=st)[0]
    vs = {(E.load(s, l) if l is not None else v) for s, v, l in outs}
    return vs.pop() if len(vs) == 1 else ('none',)


def values(ctx):
    P = ctx.P
    done = {}
    for f in ctx.fns(TY + '::encodeFieldValue', required=True):
        E, outs = explore(ctx, f, f['qn'])
        fv = ('ld', ('obj', [p['n'] for p in f['p'] if 'FieldValue' in p['t']][0]), 0)
        ty = ('fvtype', fv)
        seen = set()
        for st, v, l in outs:
            tag = tag_of(st, [ty, ('trunc', 8, False, ty)])
            if not true(v):
                k, lay = TAGS.get(tag, (None, None))
                if lay is not None and not any(e[0] == 'full' for e in st.tr):
                    total = plus(*[size(t, x) for t, x in vspec(tag, fv, st)])
                    ctx.ob('refused', short_of(E, st, total), f['file'], f['l'], f['qn'],
                           "encoding a field value of type '%s' may fail although there is room" % tag, trace_lines(st))
                continue
            if tag not in TAGS:
                ctx.ob('encoded', False, f['file'], f['l'], f['qn'], 'a field value of unknown type %s is encoded' % tag, trace_lines(st))
                continue
            seen.add(tag)
            L = Layout(st, plus(BASE, OFF))
            items = L.items(lin_add(final(E, st, f, 'd_offset'), OFF, -1))
            err = L.bad
            if not err:
                if not items or not (number(items[0], 8) and (narrow(items[0][3], 8) == ty or items[0][3] == ('int', ord(tag)))):
                    err = 'expected the tag, found %s' % found(items, 0)
                else:
                    err = match([bare(p, st) for p in items[1:]], vspec(tag, fv, st)[1:])
            ctx.ob('encoded', not err, f['file'], f['l'], f['qn'], "field value '%s' encoded: %s" % (tag, err), trace_lines(st))
        for t in TAGS:
            ctx.ob('tags', t in seen, f['file'], f['l'], f['qn'], "a field value of type '%s' is never encoded" % t)
    for f in ctx.fns(TY + '::decodeFieldValue', required=True):
        E, outs = explore(ctx, f, f['qn'])
        out = ('deref', ('arg', [p['n'] for p in f['p'] if 'FieldValue' in p['t']][0]))
        at = plus(BASE, OFF)
        seen = set()
        for st, v, l in outs:
            tag = tag_of(st, [('wire', ('any', s, 8), at) for s in 'su'])
            real = 's' if tag == 'U' else tag
            if real in TAGS:
                k, lay = TAGS[real]
                want, end = vread(real, plus(at, 1))
            if not true(v):
                if real in TAGS and not any(e[0] == 'short' for e in st.tr):
                    ctx.ob('refused', short_of(E, st, lin_add(end, at, -1)), f['file'], f['l'], f['qn'],
                           "a complete field value of type '%s' may be refused" % tag, trace_lines(st))
                continue
            if real not in TAGS:
                ctx.ob('decoded', False, f['file'], f['l'], f['qn'], 'a field value of unknown type %s is accepted' % tag, trace_lines(st))
                continue
            seen.add(tag)
            got = E.load(st, out)
            err = None
            if k is None:
                if got[0] == 'mk' and got[1] == FV:
                    err = None if is_tag(got[2][0], real, at) else 'it becomes %s' % pp(got)[:80]
                elif got != ('ld', out, 0):
                    err = 'it becomes %s' % pp(got)[:80]
                else:
                    done['keeps'] = True
            elif got[0] != 'mk' or got[1] != FV:
                err = 'the result is %s' % pp(got)[:80]
            else:
                t, kd, x = got[2]
                if not is_tag(t, real, at):
                    err = 'its type becomes %s' % pp(t)[:60]
                elif kind(kd[1]) != k:
                    err = 'it becomes a %s, expected %s' % (kd[1], k)
                elif x[0] != 'int' and seen_through(E, st, x) != want and not (k == 'bool' and plain(x) in (want, ('wire', ('any', 's', 8), want[2]))):
                    err = 'its value is %s, expected %s' % (pp(x)[:100], pp(want)[:100])
                elif x[0] == 'int' and not (k == 'bool' and bool_fact(st, want) == (x[1] != 0)):
                    err = 'its value is %s, expected %s' % (pp(x)[:100], pp(want)[:100])
            if not err and plus(BASE, final(E, st, f, 'd_offset')) != end:
                err = 'the buffer ends at %s, expected %s' % (pp(final(E, st, f, 'd_offset'))[:100], pp(end)[:100])
            ctx.ob('decoded', not err, f['file'], f['l'], f['qn'], "field value '%s' decoded: %s" % (tag, err), trace_lines(st))
        for t in list(TAGS) + ['U']:
            ctx.ob('tags', t in seen, f['file'], f['l'], f['qn'], "a field value of type '%s' is never accepted" % t)
    ctx.keeps_v = done.get('keeps', False)
    # the class that carries a value
    for f in P.functions.values():
        if f.get('cl') == FV and f.get('kind') == 'ctor' and f.get('b') and len(f['p']) == 2:
            E = ctx.engine(Plain())
            for st, v, l in E.run(f)[0]:
                got = {k[2]: x for k, x in st.mem.items() if k[0] == 'fld' and k[1] == ('obj', 'this')}
                n = f['p'][1]['n']
                arg = [('arg', n), ('ld', ('obj', n), 0)]
                ok = any(x == ('arg', f['p'][0]['n']) for x in got.values()) and \
                    any(mentions(x, lambda t: t in arg) for x in got.values())
                ctx.ob('carried', ok, f['file'], f['l'], f['qn'], 'a field value made from (type, %s) does not keep both' % cxx(f['p'][1]['t']), trace_lines(st))


class Plain(Cfg):
    def inline(self, eng, fn):
        return False


def bare(p, st):
    """a boolean written as 1 or 0 after a test of it"""
    if p[3][0] == 'int' and p[3][1] in (0, 1):
        for a, x in st.facts.items():
            if a[0] == 't' and a[1][0] == 'fvval' and a[1][1] == 'bool' and x == (p[3][1] == 1):
                return p[:3] + (a[1],)
    return p


def vspec(tag, fv, st):
    k, lay = TAGS[tag]
    ty = ('u8', None)
    if k is None:
        return [ty]
    v = None
    for e in st.tr:
        for t in subs(e):
            if t[0] == 'fvval' and kind(t[1]) == k and t[2] == fv:
                v = t
    for a in st.facts:
        for t in subs(a):
            if t[0] == 'fvval' and kind(t[1]) == k and t[2] == fv:
                v = v or t
    v = v or ('fvval', k, fv)
    if k == TAB:
        v = ('ld', ('deref', v), 0)
    if lay[0] == 'num':
        return [ty, ('u%d' % lay[1], v)]
    if lay[0] == 'fixed':
        return [ty, ('raw', v)]
    if lay[0] == 'long':
        return [ty, ('long', v)]
    return [ty, (lay[1], v)]


def subs(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subs(x)


def vread(tag, cur):
    k, lay = TAGS[tag]
    if k is None:
        return None, cur
    if lay[0] == 'num':
        return ('wire', ('any' if lay[1] == 8 else 'big', lay[2] or 'u', lay[1]), cur), plus(cur, lay[1] // 8)
    if lay[0] == 'fixed':
        return ('bytes', cur, ('int', lay[1])), plus(cur, lay[1])
    if lay[0] == 'long':
        return read('long', cur)
    return read(lay[1], cur)


def seen_through(E, st, x):
    """a shared pointer to a table stands for the table"""
    for _ in range(3):
        if x[0] == 'ptr':
            return E.load(st, x[1])
        if x[0] in ('mk', 'rec') and len(x) > 2 and x[2] and isinstance(x[2][0], tuple) and x[2][0] and x[2][0][0] == 'ptr':
            x = x[2][0]
        else:
            break
    return x


def bool_fact(st, want):
    for a, x in st.facts.items():
        if a[0] == 't' and a[1][0] == 'wire' and a[1][2] == want[2] and a[1][1][2] == 8:
            return x
        if a[0] == '==' and a[1] == ('int', 0) and a[2][0] == 'wire' and a[2][2] == want[2] and a[2][1][2] == 8:
            return not x
    return None


def is_tag(t, tag, at):
    return t == ('int', ord(tag)) or tag != 's' and plain(t)[0] == 'wire' and plain(t)[2] == at or tag == 's' and t[0] == 'wire' and t[2] == at


def tag_of(st, terms):
    for a, x in st.facts.items():
        if x and a[0] == '==' and a[2] in terms and a[1][0] == 'int':
            return chr(a[1][1] & 255)
    return None


def sequences(ctx):
    for fn, kd in (('encodeFieldArray', 'array'), ('encodeFieldTable', 'table')):
        for f in ctx.fns(TY + '::' + fn, required=True):
            E, outs = explore(ctx, f, f['qn'])
            turns = set()
            for st, v, l in outs:
                if not true(v):
                    if not any(e[0] == 'full' for e in st.tr):
                        vals = elements(st, kd)
                        vals = vals + begun(st, vals)
                        over255 = any(a[0] == '<' and x and a[1] == ('int', 255) and a[2][0] == 'size' for a, x in st.facts.items())
                        ok = over255 or short_of(E, st, plus(4, *[size(t, x) for t, x in vals]))
                        ctx.ob('refused', ok, f['file'], f['l'], f['qn'], 'encoding a field %s may fail although there is room' % kd, trace_lines(st))
                    continue
                L = Layout(st, plus(BASE, OFF))
                items = L.items(lin_add(final(E, st, f, 'd_offset'), OFF, -1))
                err = L.bad
                if not err:
                    vals = elements(st, kd)
                    rest = plus(*[size(t, x) for t, x in vals])
                    turns.add(len(vals))
                    err = match(items, [('u32', rest)] + vals)
                    src = [x for t, x in vals if t == 'value']
                    if not err and len(set(src)) != len(src):
                        err = 'the same field is written twice'
                    if not err:
                        for i, x in enumerate(src):
                            if not has_index(x, i):
                                err = 'field %d is written from %s' % (i, pp(x)[:60])
                    if not err and kd == 'table':
                        err = paired(vals)
                ctx.ob('encoded', not err, f['file'], f['l'], f['qn'], 'field %s encoded: %s' % (kd, err), trace_lines(st))
            for k, i in sorted(E.cfg.notes):
                ctx.ob('encoded', False, f['file'], f['l'], f['qn'], 'field %s encoded: number %d to be written is element %d' % (kd, k, i))
            ctx.ob('encoded', len(turns) > 1, f['file'], f['l'], f['qn'], 'a field %s with fields is never encoded' % kd)
    for fn, kd in (('decodeFieldArray', 'array'), ('decodeFieldTable', 'table')):
        for f in ctx.fns(TY + '::' + fn, required=True):
            E, outs = explore(ctx, f, f['qn'])
            out = ('deref', ('arg', [p['n'] for p in f['p'] if '*' in p['t']][0]))
            turns = set()
            at = plus(BASE, OFF)
            n = ('wire', be(32), at)
            for st, v, l in outs:
                if not true(v):
                    continue
                err, cur, k = None, plus(at, 4), 0
                for e in st.tr:
                    if e[0] == 'nested' and ctx.keeps_v and not (e[3][0] == 'mk' and e[3][1] == FV and e[3][2][0] == ('int', 86)):
                        err = 'a field without value would keep what was in %s' % pp(e[3])[:60]
                    if e[0] != 'push':
                        continue
                    k += 1
                    if climb_to(e[1], out) is False:
                        err = err or 'a field is put into %s' % pp(e[1])[:60]
                    a = e[2]
                    if kd == 'table':
                        want1, nxt = read('short', cur)
                        want2, nxt2 = read('value', nxt)
                        got = pair(a)
                        if got != (want1, want2):
                            err = err or 'field %d is (%s), expected (%s)' % (k, ', '.join(pp(x)[:70] for x in got), ', '.join(pp(x)[:70] for x in (want1, want2)))
                        cur = nxt2
                    else:
                        want, nxt = read('value', cur)
                        if a != (want,):
                            err = err or 'element %d is %s, expected %s' % (k, ', '.join(pp(x)[:70] for x in a), pp(want)[:70])
                        cur = nxt
                if not err and plus(BASE, final(E, st, f, 'd_offset')) != plus(at, 4, n):
                    err = 'the buffer ends at %s' % pp(final(E, st, f, 'd_offset'))[:80]
                # the last field ends where the length prefix says
                if not err:
                    E.ranges.setdefault(n, (0, (1 << 32) - 1))
                    d = lin_add(plus(at, 4, n), cur, -1)
                    if not (E.entails(st, d) and E.entails(st, lin_add(('int', 0), d, -1))):
                        err = 'decoding may stop before the end of the %s' % kd
                turns.add(k)
                ctx.ob('decoded', not err, f['file'], f['l'], f['qn'], 'field %s decoded: %s' % (kd, err), trace_lines(st))
            ctx.ob('decoded', len(turns) > 1, f['file'], f['l'], f['qn'], 'a field %s with fields is never decoded' % kd)


def pair(a):
    if len(a) == 2:
        return a
    if a and a[0][0] == 'rec':
        d = {p[0]: x for p, x in a[0][2] if len(p) == 1}
        return (d.get('first', ('none',)), d.get('second', ('none',)))
    if a and a[0][0] == 'mk' and len(a[0][2]) == 2:
        return a[0][2]
    return a


def climb_to(loc, top):
    while loc != top:
        if loc[0] != 'fld':
            return False
        loc = loc[1]
    return True


def elements(st, kd):
    """what a loop wrote, in order of address"""
    puts = [e for e in st.tr if e[0] == 'put' and e[3] in ('value', 'bytes')]
    out = []
    for e in puts:
        if e[3] == 'value':
            out.append(('value', e[4]))
        elif e[2][0] == 'size':
            out.append(('short', e[4]))
    return out


def has_index(x, i):
    for t in subs(x):
        if t[0] == 'elem':
            return t[2] == ('int', i) or not (isinstance(t[2], tuple) and t[2][0] == 'int')
    return False


def paired(vals):
    for i in range(0, len(vals), 2):
        a, b = vals[i], vals[i + 1] if i + 1 < len(vals) else (None, None)
        if a[0] != 'short' or b[0] != 'value':
            return 'a field is not written as name and value'
        ea, eb = ([t for t in subs(x[1]) if t[0] == 'elem'] for x in (a, b))
        if not ea or not eb or ea[0] != eb[0]:
            return 'name and value come from different fields'
    return None


def begun(st, vals):
    """names that were looked at but not written"""
    have = {x for t, x in vals}
    out = {t[1] for a in st.facts for t in subs(a) if t[0] == 'size' and t[1] not in have and any(e[0] == 'elem' for e in subs(t[1]))}
    return [('short', x) for x in out]


def frames(ctx):
    fs = ctx.fns(NS + 'Method::encode', required=True)
    for f in fs:
        m = [(n, p['n']) for n in MESSAGES for p in f['p'] if re.search(r'methods::%s\b' % n, p['t'])]
        if not m:
            continue
        name, pn = m[0]
        E, outs = explore(ctx, f)
        vals = [(t, access(ctx, E, ME + name, n, ('obj', pn)) if isinstance(n, str) else ('int', n)) for t, n in MESSAGES[name][1]]
        encoder(ctx, E, f, outs, [('u16', ('int', 10)), ('u16', ('int', MESSAGES[name][0]))] + vals, 'method ' + name)
    for f in ctx.fns(NS + 'Method::decode', required=True):
        E = ctx.engine(Wire())
        ps = f['p']
        ctx.ctx.require(len(ps) == 3, 'Method::decode(method, data, length)')
        at, ln, obj = ('arg', ps[1]['n']), ('arg', ps[2]['n']), ('deref', ('arg', ps[0]['n']))
        want = {'classType': ('wire', be(16), at), 'methodType': ('wire', be(16), plus(at, 2)), 'payload': plus(at, 4), 'length': plus(ln, -4)}
        for st, v, l in E.run(f)[0]:
            if true(v):
                for n, x in want.items():
                    got = E.load(st, ('fld', obj, n))
                    ctx.ob('decoded', got == x, f['file'], f['l'], f['qn'], 'method decoded: %s is %s, expected %s' % (n, pp(got)[:80], pp(x)[:80]), trace_lines(st))
            else:
                ctx.ob('refused', E.entails(st, plus(3, lin_add(('int', 0), ln, -1))), f['file'], f['l'], f['qn'], 'a complete method may be refused', trace_lines(st))
    for f in ctx.fns(NS + 'Frame::encode', required=True):
        E = ctx.engine(Wire())
        ps = f['p']
        st0 = St()
        w = ('deref', ('arg', ps[1]['n']))
        st0.mem[w] = ('int', 0)
        fr = lambda n: ('ld', ('fld', ('obj', ps[2]['n']), n), 0)
        n = fr('length')
        E.ranges[n] = (0, CAP)
        ok = False
        for st, v, l in E.run(f, st=st0)[0]:
            if not true(v):
                ctx.ob('refused', any(a[0] == '<' and any(t == n for t in subs(a)) for a in st.facts), f['file'], f['l'], f['qn'],
                       'a frame may be refused for something other than its length', trace_lines(st))
                continue
            ok = True
            L = Layout(st, ('arg', ps[0]['n']))
            items = L.items(E.load(st, w))
            err = L.bad
            if not err:
                if len(items) != 5:
                    err = '%d items are written, expected type, channel, length, payload and end' % len(items)
                else:
                    err = match(items[:3] + items[4:], [('u8', fr('type')), ('u16', fr('channel')), ('u32', n), ('u8', ('int', 0xCE))])
                    p = items[3]
                    if not err and (p[2] != 'bytes' or p[1] != n or p[3] != fr('payload')):
                        err = 'expected the payload, found %s' % found(items, 3)
            ctx.ob('encoded', not err, f['file'], f['l'], f['qn'], 'frame encoded: %s' % err, trace_lines(st))
        ctx.ob('encoded', ok, f['file'], f['l'], f['qn'], 'no frame is ever encoded')
    for f in ctx.fns(NS + 'Connector::sendResponse', required=True):
        E = ctx.engine(Send())
        hit = False
        for st, v, l in E.run(f)[0]:
            m = [e for e in st.tr if e[0] == 'method']
            for e in st.tr:
                if e[0] != 'frame':
                    continue
                hit = True
                _, typ, ch, ln, pay, w = e
                bad = None
                if (typ, ch) != (('int', 1), ('int', 0)):
                    bad = 'is sent as type %s on channel %s' % (pp(typ)[:30], pp(ch)[:30])
                elif not m or m[-1][1] != pay or narrow(ln, 32) != m[-1][2]:
                    bad = 'has payload %s of %s bytes' % (pp(pay)[:50], pp(ln)[:50])
                elif w != ('int', 0):
                    bad = 'is written at %s' % pp(w)[:40]
                ctx.ob('framed', not bad, f['file'], f['l'], f['qn'], 'the frame around a handshake message %s' % bad, trace_lines(st))
        ctx.ob('framed', hit, f['file'], f['l'], f['qn'], 'a handshake message is never put into a frame')


class Send(Wire):
    def on_call(self, eng, st, c):
        if c.bqn == NS + 'Method::encode':
            b = c.locs[0]
            p, o = (eng.load(st, ('fld', b, x)) for x in ('d_data', 'd_offset'))
            n = ('enclen', 'method', c.args[1])
            eng.ranges[n] = (0, CAP)
            s = st.emit('method', lin_add(p, o), n)
            return [(eng.store(s, ('fld', b, 'd_offset'), lin_add(o, n)), TRUE, None), (st.emit('full'), FALSE, None)]
        if c.bqn == NS + 'Frame::encode':
            l = c.locs[2]
            x = tuple(eng.load(st, ('fld', l, n)) for n in ('type', 'channel', 'length', 'payload'))
            w = eng.deref(st, c.args[1])
            s = st.emit('frame', *x, eng.load(st, w))
            return [(eng.store(s, w, ('written',)), TRUE, None), (st.emit('full'), FALSE, None)]
        return super().on_call(eng, st, c)
