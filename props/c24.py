"""C24: malformed frames are never accepted as frames; encoded frames are well formed."""
from checklib import *
from bounds import *
from tab import *

EXPLANATION = ('Linear-inequality abstract interpretation of Frame::decode and Frame::encode: every path that accepts, waits for or rejects a frame '
               'is compared with the frame format (header layout, payload, end marker), for every buffer length and declared length.')
END = 0xCE


class FE(BoundsEngine):
    def byte(self, s, b, i, e):
        return ('byte', lin_add(b, i))

    def ev_idx(self, e, st, fr):
        out = []
        for s, b in self.ev(e['b'], st, fr):
            for s2, i in self.ev(e['i'], s, fr):
                if b[0] in ('ptr', 'str', 'list') or e.get('sz', 1) != 1:
                    return super().ev_idx(e, st, fr)
                v = self.byte(s2, b, i, e)
                self.ranges.setdefault(v, (0, 255))
                out.append((s2, v))
        return out

    def ev_un(self, e, st, fr):
        if e['op'] == '*':
            out = []
            for s, b in self.ev(e['e'], st, fr):
                if b[0] in ('lin', 'arg') and any(x in self.cfg.regions for x in to_lin(b)[1]):
                    v = ('byte', b)
                    self.ranges.setdefault(v, (0, 255))
                    out.append((s, v))
                else:
                    return super().ev_un(e, st, fr)
            return out
        return super().ev_un(e, st, fr)


class FC(BoundsCfg):
    def on_call(self, eng, st, c):
        a = c.args
        if c.name in ('memcpy', 'memmove', '__builtin_memcpy') and len(a) == 3 or c.bqn in ('std::copy_n',):
            if c.name == 'copy_n':
                a = (a[2], a[0], a[1])
            st = st.emit('copy', a[0], a[1], a[2])
            if a[0][0] == 'ptr':
                if num(a[2]) == 1:
                    v = ('byte', a[1])
                    eng.ranges.setdefault(v, (0, 255))
                    s = eng.store_raw(st, a[0][1], v)
                else:
                    s, tag = eng.site(st, c.fr, c.node)
                    s = eng.havoc(s, a[0][1], (tag, 0))
                return [(s, ('void',), None)]
            return [(st, ('void',), None)]
        return super().on_call(eng, st, c)

    def on_store(self, eng, st, loc, val, node, fr):
        if loc[0] == 'elem' and isinstance(loc[2], tuple):
            b = loc[1][1] if loc[1][0] == 'deref' else eng.load(st, loc[1])
            return st.emit('put', lin_add(b, loc[2]), val)
        if loc[0] == 'deref' and loc[1][0] in ('lin', 'arg') and any(x in self.regions for x in to_lin(loc[1])[1]):
            return st.emit('put', loc[1], val)
        return super().on_store(eng, st, loc, val, node, fr)


def run(ctx):
    ctx.rule('decode: accept => header fields taken from bytes 0, 1-2 and 3-6, declared bytes and end marker present, marker == 0xCE, rest correct')
    ctx.rule('decode: wait <=> fewer bytes than declared and declared size within the maximum; error only for a wrong marker or an oversized frame')
    ctx.rule('encode: success => type, channel, size, payload and end marker at their places, size within the maximum, written size = payload + 8; failure only for oversized frames')
    cfg = FC(ctx)
    E = FE(ctx.P, cfg)
    eq = lambda st, a, b: a == b or (E.entails(st, lin_add(a, b, -1)) and E.entails(st, lin_add(b, a, -1)))
    f = ctx.fn('Frame::decode')
    ctx.require(len(f['p']) == 5, 'parameters of Frame::decode')
    cfg.entry = f
    bv, bn = ('arg', f['p'][3]['n']), ('arg', f['p'][4]['n'])
    cfg.regions[bv] = bn
    E.ranges[bn] = (0, 1 << 61)
    F = ('deref', ('arg', f['p'][0]['n']))
    gm = {v for st, v, l in E.run(ctx.fn('Frame::getMaxFrameSize'))[0]}
    ctx.require(len(gm) == 1, 'Frame::getMaxFrameSize')
    MAX = gm.pop()
    if num(MAX) is None:
        E.ranges[MAX] = (0, 1 << 61)
    rec = ctx.record('Frame')
    types = {x['n']: x['t'] for x in rec['fields']}
    for n, w in (('type', 8), ('channel', 16), ('length', 32)):
        t = types.get(n, '')
        if not ('big' in t and str(w) in t or 'order::big' in t and ', %d' % w in t):
            ctx.violation('layout of ' + n, 'the frame member %s is not a %d bit big-endian unsigned integer (%s)' % (n, w, t), loc_of(f))

    def marker(st, at):
        for a, v in st.facts.items():
            if a[0] == '==' and num(a[1]) == END and a[2][0] == 'byte' and eq(st, a[2][1], at):
                return v
        return None

    def length(st):
        l = E.load(st, ('fld', F, 'length'))
        if num(l) is None and l[0] != 'lin':
            E.ranges.setdefault(l, (0, (1 << 32) - 1))
        return l
    outs, thr = E.run(f)
    acc = 0
    for st, v, l in outs:
        ctx.count('decode_paths')

        def bad(key, text):
            ctx.violation('decode: ' + key, text, loc_of(f), trace_lines(st))
        ln = length(st)
        full = lin_add(ln, ('int', 8))
        if v == TRUE:
            acc += 1
            cp = {(field(x[1], F), off(x[2], bv), num(x[3])) for x in st.tr if x[0] == 'copy'}
            for w in (('type', 0, 1), ('channel', 1, 2), ('length', 3, 4)):
                if w not in cp and not (w[0] == 'type' and E.load(st, ('fld', F, 'type')) == ('byte', bv)):
                    bad(w[0], 'the %s of a frame is not taken from its place in the header' % w[0])
            if not E.entails(st, lin_add(bn, full, -1)):
                bad('incomplete', 'a frame is accepted although not all of its declared bytes may have arrived')
            if marker(st, lin_add(bv, lin_add(ln, ('int', 7)))) is not True:
                bad('end marker', 'a frame is accepted without the end marker of the protocol after its payload')
            pl = E.load(st, ('fld', F, 'payload'))
            if not eq(st, pl, lin_add(bv, ('int', 7))):
                bad('payload', 'the payload of a frame does not start after its header')
            eof = E.load(st, ('deref', ('arg', f['p'][1]['n'])))
            rem = E.load(st, ('deref', ('arg', f['p'][2]['n'])))
            if not eq(st, eof, lin_add(bv, full)) or not eq(st, lin_add(rem, full), bn):
                bad('end', 'the reported end of the frame is not right after its end marker')
        elif v == FALSE:
            if E.entails(st, lin_add(('int', 7), bn, -1)):
                continue
            if not E.entails(st, lin_add(lin_add(full, bn, -1), ('int', -1))):
                bad('waits', 'a frame that has completely arrived is not accepted')
            elif not E.entails(st, lin_add(MAX, full, -1)):
                bad('waits for oversized', 'decoding waits for a frame that exceeds the maximum size')
        else:
            bad('answer', 'decoding gives no definite answer')
    ctx.require(acc or ctx.viol, 'a path that accepts a frame')
    for x in thr:
        st = x[0]
        ctx.count('decode_error_paths')
        ln = length(st)
        full = lin_add(ln, ('int', 8))
        over = E.entails(st, lin_add(lin_add(full, MAX, -1), ('int', -1)))
        m = marker(st, lin_add(bv, lin_add(ln, ('int', 7))))
        if not over and m is not False:
            ctx.violation('decode: error', 'a well-formed frame is rejected', loc_of(f), trace_lines(st))
    g = [x['i'].get('v') for k, x in ctx.P.globals.items() if MAX[0] == 'ld' and MAX[1] == ('glob', k) and (x.get('i') or {}).get('k') == 'int']
    adv = {num(v) for fn in ctx.fns('Constants::maxFrameSize') for st, v, l in E.run(fn)[0]}
    if g and adv and None not in adv:
        ctx.count('advertised_maximum')
        if max(adv) > g[0]:
            ctx.violation('advertised maximum', 'the frame size offered to clients (%d) exceeds what is decoded (%d)' % (max(adv), g[0]), loc_of(f))
    # encode ------------------------------------------------------------------------------
    f = ctx.fn('Frame::encode')
    ctx.require(len(f['p']) == 3, 'parameters of Frame::encode')
    cfg.entry = f
    o, w, fr = ('arg', f['p'][0]['n']), ('deref', ('arg', f['p'][1]['n'])), ('obj', f['p'][2]['n'])
    ln = ('ld', ('fld', fr, 'length'), 0)
    E.ranges[ln] = (0, (1 << 32) - 1)
    cfg.regions[o] = lin_add(ln, ('int', 8))
    full = lin_add(ln, ('int', 8))
    st0 = St()
    st0.mem[w] = ('int', 0)
    outs, thr = E.run(f, st=st0)
    enc = 0
    for st, v, l in outs:
        ctx.count('encode_paths')

        def bad(key, text):
            ctx.violation('encode: ' + key, text, loc_of(f), trace_lines(st))
        if v == TRUE:
            enc += 1
            if not E.entails(st, lin_add(MAX, full, -1)):
                bad('oversized', 'a frame larger than the maximum is encoded')
            if not eq(st, E.load(st, w), full):
                bad('written size', 'the reported size of an encoded frame is not its size')
            lay = []
            for x in st.tr:
                if x[0] == 'copy':
                    s = field(x[2], fr)
                    if s is None and x[2] == ('ld', ('fld', fr, 'payload'), 0):
                        s = 'payload'
                    lay.append((s, lin_add(x[1], o, -1), x[3]))
                elif x[0] == 'put':
                    lay.append((x[2], lin_add(x[1], o, -1), ('int', 1)))

            def has(what, at, n):
                return any((s == what or isinstance(s, tuple) and (s == ('ld', ('fld', fr, what), 0) if isinstance(what, str) else num(s) == what)) and
                           eq(st, p, at) and eq(st, k, n) for s, p, k in lay)
            I = lambda n: ('int', n)
            for what, at, n in (('type', I(0), I(1)), ('channel', I(1), I(2)), ('length', I(3), I(4)), ('payload', I(7), ln), (END, lin_add(ln, I(7)), I(1))):
                if not has(what, at, n):
                    bad(str(what), 'the %s is not at its place in an encoded frame' % (what if what != END else 'end marker'))
            if len(lay) != 5:
                bad('extra', 'an encoded frame contains more than its five parts')
        elif v == FALSE:
            if not E.entails(st, lin_add(lin_add(full, MAX, -1), ('int', -1))):
                bad('refuses', 'a frame within the maximum size is not encoded')
        else:
            bad('answer', 'encoding gives no definite answer')
    if thr:
        ctx.violation('encode: throws', 'encoding throws', loc_of(f), trace_lines(thr[0][0]))
    ctx.require(enc or ctx.viol, 'a path that encodes a frame')
    ctx.done(E)


def field(v, F):
    """member of the frame at F whose address v is"""
    if v[0] == 'ptr' and v[1][0] == 'fld' and v[1][1] == F:
        return v[1][2]
    return None


def off(v, b):
    return num(lin_add(v, b, -1))
