"""C07: established traffic is forwarded unmodified to the other side and counted once."""
from checklib import *
from pproc import *
import flow07

EXPLANATION = ('Linear-inequality abstract interpretation of the frame loop (ghost counters for the frames decoded and the position reached) shows '
               'that on every path an open session hands the received run [start, end of the last complete frame) to the other side, keeps the rest '
               'and counts once; typestate analysis of the session\'s read and write handlers shows where those runs come from and go to.')


def run(ctx):
    ctx.rule('open: write buffer of the other side = [start of the data, end of the last complete frame), the other one empty, totals of that direction += (frames, bytes) once')
    ctx.rule('not open: no totals; always: remaining = the bytes after the last complete frame, and a frame is left only if it is incomplete')
    ctx.rule('session: bytes are appended after the kept rest, processed once, kept rest moved to the front, and the run is written completely to the socket of its side')
    cfg, E, fn, outs, thr, orig, off, dname = analyse_process(ctx)
    states = dict(ctx.P.enums[NS + 'Connector::State'])
    flow = dict(ctx.P.enums[NS + 'FlowType'])
    D = ('arg', dname)
    tot = totals(ctx)
    n = 0
    for st, v, l in outs:
        ctx.count('process_paths')

        def bad(key, text):
            ctx.violation(key, text, loc_of(fn), trace_lines(st))
        s = E.load(st, GST)
        sums = [e for e in st.tr if e[0] == 'state' and e[1] in tot]
        ing, egr = cfg.wbufs(E, st)
        rest = E.load(st, ('fld', T, cfg.rest))
        hdr = [e for e in st.tr if e[0] == 'receive' and e[1] == 'header']
        fld = lambda b, f: E.getf(b, f)
        if hdr or decide_eq(E, st, ('sym', 'state0', 0), 'AWAITING_PROTOCOL_HEADER', states['AWAITING_PROTOCOL_HEADER']):
            # header stage
            if sums:
                bad('header counted', 'handshake bytes are counted as forwarded traffic')
            if not hdr and not (eq(E, st, fld(rest, cfg.bp), orig) and eq(E, st, fld(rest, cfg.bl), off)):
                bad('partial header lost', 'a partial protocol header is neither kept nor handled')
            continue
        o = decide_eq(E, st, s, 'OPEN', states['OPEN'])
        if o is None:
            bad('open undecided', 'data is handled without establishing whether the session is open')
            continue
        rp, rl = fld(rest, cfg.bp), fld(rest, cfg.bl)
        if rest == ('ld', ('fld', T, cfg.rest), 0) or num(fld(rest, cfg.bo)) != 0:
            bad('rest not set', 'the unprocessed rest of the data is not reported')
            continue
        if not eq(E, st, lin_add(rp, rl), lin_add(orig, off)):
            bad('rest extent', 'the reported rest (%s bytes at %s) does not end where the received data ends' % (pp(rl)[:100], pp(rp)[:100]))
        nxt = E.load(st, GNEXT)
        if not eq(E, st, rp, nxt):
            bad('rest start', 'the reported rest does not start right after the last complete frame')
        # nothing complete is left behind
        last = [e for e in st.tr if e[0] in ('frame', 'nodecode')]
        short = E.entails(st, lin_add(('int', 7), rl, -1))
        tried = bool(last) and last[-1][0] == 'nodecode' and eq(E, st, last[-1][1], rp) and eq(E, st, last[-1][2], rl)
        if not short and not tried:
            bad('frames left', 'processing stops although a complete frame may be left in the data')
        if not o:
            if sums:
                bad('counted while not open', 'bytes are counted as forwarded traffic although the session is not open')
            continue
        n += 1
        d = enum_is(E, st, D, flow, 'INGRESS')
        if d is None:
            bad('direction undecided', 'data is forwarded without regard to its direction')
            continue
        to, other = (egr, ing) if d else (ing, egr)
        if fld(to, cfg.bp) != orig or not eq(E, st, lin_add(fld(to, cfg.bl), rl), off) or num(fld(to, cfg.bo)) != 0:
            bad('forwarded run ' + ('ingress' if d else 'egress'), 'what is handed to the %s is not the received run of complete frames (%s)' % ('broker' if d else 'client', pp(to)[:200]))
        if num(fld(other, cfg.bl)) != 0:
            bad('wrong side ' + ('ingress' if d else 'egress'), 'data from the %s is also written back to it' % ('client' if d else 'broker'))
        if len(sums) != 1 or tot[sums[0][1]] != ('ingress' if d else 'egress'):
            bad('counted ' + ('ingress' if d else 'egress'), 'a forwarded run is not counted exactly once on the counters of its direction (%s)' % [e[1] for e in sums])
        else:
            a = sums[0][2]
            if not eq(E, st, a[0], E.load(st, GN)):
                bad('frame count', 'the number of frames counted (%s) is not the number of complete frames' % pp(a[0])[:120])
            if not eq(E, st, lin_add(a[1], rl), off):
                bad('byte count', 'the number of bytes counted (%s) is not the number of bytes forwarded' % pp(a[1])[:120])
    ctx.require(n >= 2, 'paths that forward data')
    # frames are taken one after the other
    for head, e, tr, w in cfg.iters:
        fr = [i for i, x in enumerate(tr) if x[0] == 'frame']
        ctx.count('frame_iterations')
        for i in fr:
            f = tr[i + 1]
            if not eq(E, e, f[1], f[3]):
                ctx.violation('frame order', 'a frame is taken from somewhere else than right after the previous one', loc_of(fn), trace_lines(e))
            if not eq(E, e, lin_add(f[1], f[2]), lin_add(orig, off)):
                ctx.violation('frame extent', 'a frame is decoded from an extent that does not end with the received data', loc_of(fn), trace_lines(e))
    frame_contract(ctx)
    flow07.run(ctx)
    ctx.done(E)


def totals(ctx):
    """{method name: 'ingress'|'egress'} after checking that each adds one packet, its frames and its bytes"""
    E = Engine(ctx.P, EffectCfg())
    acc = {}
    out = {}
    get = {}
    f = ctx.fn('SessionState::getTotals')
    res = E.run(f)[0]
    ctx.require(len(res) == 1, 'SessionState::getTotals')
    st0 = res[0][0]
    ctx.require(len(f['p']) == 10, 'parameters of SessionState::getTotals')
    pos = {('arg', p['n']): i for i, p in enumerate(f['p'])}
    roles = {}
    for k, v in st0.mem.items():
        if k[0] == 'deref' and k[1] in pos:
            m = {t[2] for t in subterms(v) if t and t[0] == 'fld' and t[1] == T}
            ctx.require(len(m) == 1, 'one counter per total')
            roles[pos[k[1]]] = m.pop()
    if len(roles) != 10 or len(set(roles.values())) != 10:
        ctx.violation('getTotals', 'the totals do not report ten different counters', loc_of(f))
    for which in ('Ingress', 'Egress'):
        fn = ctx.fn('SessionState::increment%sTotals' % which)
        a = [p['n'] for p in fn['p']]
        for st, v, l in E.run(fn)[0]:
            ctx.count('total_paths')
            got = {}
            for e in st.tr:
                if e[0] == 'assign':
                    got[e[1]] = e[3]
                elif e[0] == 'atomic':
                    got[e[1]] = e[2]
            want = {}
            base = 0 if which == 'Ingress' else 5
            for i, add in enumerate((('int', 1), ('arg', a[0]), ('arg', a[1]))):
                if base + i in roles:
                    want[roles[base + i]] = add
            g = {}
            for m, val in got.items():
                g[m] = lin_add(val, ('ld', ('fld', T, m), 0), -1)
            if g != want:
                ctx.violation('increment%sTotals' % which, 'counting %s traffic does not add one packet, its frames and its bytes to the %s counters (%s)' % (
                    which.lower(), which.lower(), {m: pp(x)[:60] for m, x in g.items()}), loc_of(fn), trace_lines(st))
        out['increment%sTotals' % which] = which.lower()
    ctx.done(E)
    return out


def frame_contract(ctx):
    cfg = BoundsCfg(ctx)
    E = BoundsEngine(ctx.P, cfg)
    f = ctx.fn('Frame::decode')
    bv, bn = ('arg', f['p'][3]['n']), ('arg', f['p'][4]['n'])
    cfg.regions[bv] = bn
    E.ranges[bn] = (0, 1 << 62)
    cfg.entry = f
    for st, v, l in E.run(f)[0]:
        if v != TRUE:
            continue
        ctx.count('frame_decode_paths')
        F = ('deref', ('arg', f['p'][0]['n']))
        eof = E.load(st, ('deref', ('arg', f['p'][1]['n'])))
        rem = E.load(st, ('deref', ('arg', f['p'][2]['n'])))
        ln, pl = E.load(st, ('fld', F, 'length')), E.load(st, ('fld', F, 'payload'))
        if not (eq(E, st, pl, lin_add(bv, ('int', 7))) and eq(E, st, eof, lin_add(lin_add(bv, ln), ('int', 8))) and eq(E, st, lin_add(eof, rem), lin_add(bv, bn))):
            ctx.violation('Frame::decode', 'a decoded frame does not cover header, payload and end marker exactly (payload %s, end %s, rest %s)' % (pp(pl)[:80], pp(eof)[:80], pp(rem)[:80]),
                          loc_of(f), trace_lines(st))
    ctx.done(E)
