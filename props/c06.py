"""C06: the handshake only advances on the expected message, in order."""
from checklib import *
from connx import *

EXPLANATION = ('The handshake step function (both receive overloads) is interpreted abstractly once for every state, message kind, '
               'direction and decoding outcome at the same time; every path (next state, replies left in the output buffer and their side, '
               'signals, handlers, exceptions) is compared with the AMQP 0-9-1 conversation table. All other methods of the class are '
               'checked not to move the conversation, and the dispatch of received frames to the step function is checked likewise.')
STATES = None


def spec(s, m, d):
    """-> ('err',) | ('stay', outs) | ('go', next, outs, signals, handler); outs: [(message, to_client)]"""
    if s == 'START_SENT':
        return ('go', 'TUNE_SENT', [('Tune', True)], [], None) if m == 'StartOk' else ('err',)
    if s == 'TUNE_SENT':
        return ('go', 'AWAITING_OPEN', [], [], None) if m == 'TuneOk' else ('err',)
    if s == 'AWAITING_OPEN':
        return ('go', 'AWAITING_CONNECTION', [], ['connectionVhostEstablished'], 'create') if m == 'Open' else ('err',)
    if s == 'AWAITING_CONNECTION':
        return ('go', 'STARTOK_SENT', [('StartOk', False)], [], None) if m == 'Start' and d == 'EGRESS' else ('err',)
    if s == 'STARTOK_SENT':
        return ('go', 'OPEN_SENT', [('TuneOk', False), ('Open', False)], [], None) if m == 'Tune' and d == 'EGRESS' else ('err',)
    if s == 'OPEN_SENT':
        return ('go', 'OPEN', [('OpenOk', True)], ['connectionEstablished'], 'ready') if m == 'OpenOk' and d == 'EGRESS' else ('errstay',)
    if s == 'OPEN':
        return ('go', 'CLOSED', [], [], None) if m in ('Close', 'CloseOk') else ('stay', [])
    if s == 'CLIENT_CLOSE_SENT':
        if d == 'INGRESS' and m in ('CloseOk', 'Close'):
            return ('go', 'SERVER_CLOSE_SENT', [('Close', False)], [], None)
        if d == 'EGRESS' and m == 'Close':
            return ('go', 'CLOSED', [('CloseOk', False)], [], None)
        return ('stay', [])
    if s == 'SERVER_CLOSE_SENT':
        if m == 'Close':
            return ('stay', [('CloseOk', True)]) if d == 'INGRESS' else ('go', 'CLOSED', [('CloseOk', False)], [], None)
        if m == 'CloseOk' and d == 'EGRESS':
            return ('go', 'CLOSED', [], [], None)
        return ('stay', [])
    return ('stay', [])


def run(ctx):
    ctx.rule('(state, message, direction) -> (next state, replies and their side, signals, handlers) as in the conversation table; anything else in a handshake state is an error that changes nothing')
    ctx.rule('a reply reuses what the client sent: the StartOk, TuneOk and Open given to the broker are the ones decoded from the client')
    ctx.rule('only the protocol header, synthesizeClose() and received messages move the conversation')
    ctx.assume('messages produced by the proxy fit in a frame (encoding into a maximum-size buffer succeeds)')
    cfg = ConnCfg()
    E = Engine(ctx.P, cfg)
    M = members(ctx, E)
    S = ('fld', ('obj', 'this'), M['state'])
    sv = ('ld', S, 0)
    en = ctx.P.enums.get(NS + 'Connector::State')
    ctx.require(en, 'Connector::State')
    states = dict(en)
    for n in ('AWAITING_PROTOCOL_HEADER', 'START_SENT', 'TUNE_SENT', 'AWAITING_OPEN', 'AWAITING_CONNECTION', 'STARTOK_SENT', 'OPEN_SENT', 'OPEN', 'CLOSED', 'ERROR'):
        ctx.require(n in states, 'state ' + n)
    ft = dict(ctx.P.enums.get(NS + 'FlowType') or {})
    ctx.require(set(ft) >= {'INGRESS', 'EGRESS'}, 'FlowType')

    def can(st, t, v):
        if num(t) is not None:
            return num(t) == num(v)
        at, pol = E.atom_eq(v, t)
        if at is True or at is False:
            return at == pol
        d = E.decide(st, at)
        return d is None or d == pol

    def nstate(st):
        v = E.load(st, S)
        return None if v == sv else (v[1].rsplit('::', 1)[-1] if v[0] == 'enum' else pp(v))

    recv = ctx.fns('Connector::receive')
    rm = [f for f in recv if any('Method' in p['t'] for p in f['p'])]
    rb = [f for f in recv if f not in rm]
    ctx.require(len(rm) == 1 and len(rb) == 1, 'Connector::receive')
    fn = rm[0]
    mp = [p['n'] for p in fn['p'] if 'Method' in p['t']][0]
    dp = [p['n'] for p in fn['p'] if 'FlowType' in p['t']][0]
    mt = ('ld', ('fld', ('obj', mp), 'methodType'), 0)
    ct = ('ld', ('fld', ('obj', mp), 'classType'), 0)
    outs, thr = E.run(fn)
    ctx.require(len(outs) > 10, 'paths of the step function')
    clientmsg = {}
    for st, v, l in outs:
        for e in st.tr:
            if e[0] == 'decode' and e[1] in ('StartOk', 'TuneOk', 'Open') and e[3]:
                clientmsg.setdefault(e[1], set()).add(field_of(e[2]))
    okcov = set()

    def combos(st):
        for s, sn in states.items():
            if not can(st, sv, ('enum', s, sn)):
                continue
            for d, dn in ft.items():
                if not can(st, ('arg', dp), ('enum', d, dn)):
                    continue
                if not can(st, ct, ('int', 10)):
                    continue
                for m, name in MSG.items():
                    if can(st, mt, ('int', m)):
                        yield s, name, d
                if can(st, mt, ('int', 999)):
                    yield s, 'other', d

    def bad(s, m, d, text, st):
        ctx.violation('receive: %s in state %s: %s' % (m, s, text), 'message %s from the %s in state %s: %s' % (
            m, 'client' if d == 'INGRESS' else 'broker', s, text), loc_of(fn), trace_lines(st))

    for st, v, l in outs:
        dec = [e for e in st.tr if e[0] == 'decode']
        failed = [e for e in dec if not e[3]]
        o, pb = outputs(E, st, M['buf'])
        buf = E.load(st, ('fld', ('obj', 'this'), M['buf']))
        side = E.load(st, ('fld', ('obj', 'this'), M['side']))
        ns = nstate(st)
        sig = [e[1] for e in st.tr if e[0] == 'signal']
        hnd = [e[1] for e in st.tr if e[0] == 'handler']
        for s, m, d in combos(st):
            ctx.count('table_entries_checked')
            w = spec(s, m, d)
            if failed:
                bad(s, m, d, 'a message that does not decode is accepted', st)
                continue
            if w[0] == 'err':
                bad(s, m, d, 'the conversation goes on (to %s) after a message that is not due' % (ns or s), st)
                continue
            if pb:
                bad(s, m, d, pb, st)
            outl = w[1] if w[0] == 'stay' else w[2] if w[0] == 'go' else []
            got = [(x[0], None) for x in o]
            if [x[0] for x in got] != [x[0] for x in outl]:
                if not (w[0] == 'go' and w[4] == 'ready' and not got and reconnect(E, st)):
                    bad(s, m, d, 'replies %s where %s is due' % ([x[0] for x in got], [x[0] for x in outl]), st)
                continue
            if outl:
                if num(side) is None or bool(num(side)) != outl[-1][1]:
                    bad(s, m, d, 'the reply goes to the wrong side', st)
                ln = recd(buf).get('d_length')
                tot = ('int', 0)
                for x in o:
                    tot = lin_add(tot, x[2][4])
                if ln != tot:
                    bad(s, m, d, 'the output buffer does not hold exactly the replies (%s)' % pp(ln or buf)[:80], st)
                for t, f, fr in o:
                    if w[0] == 'go' and t in ('StartOk', 'TuneOk', 'Open') and f not in clientmsg.get(t, ()):
                        bad(s, m, d, 'the %s sent to the broker is not the one received from the client' % t, st)
            else:
                ln = recd(buf).get('d_length')
                if not (ln == ('int', 0)) and not (w[0] == 'go' and w[1] == 'OPEN'):
                    bad(s, m, d, 'an old reply is left in the output buffer', st)
            want = w[1] if w[0] == 'go' else s
            if (ns or s) != want:
                bad(s, m, d, 'moves to %s where %s is due' % (ns or s, want), st)
            if w[0] == 'go' and w[1] not in ('CLOSED',) and s not in ('OPEN_SENT', 'CLIENT_CLOSE_SENT'):
                if not any(e[1] == m and e[3] for e in dec):
                    bad(s, m, d, 'advances without decoding the message', st)
            ws = w[3] if w[0] == 'go' else []
            if sig != ws:
                bad(s, m, d, 'signals %s where %s are due' % (sig, ws), st)
            wh = M[w[4]] if w[0] == 'go' and w[4] else None
            if wh == M['create']:
                if hnd != [wh]:
                    bad(s, m, d, 'the connection is not requested exactly once', st)
                seq = [(e[1] if e[0] == 'call' else e[0]) for e in st.tr if e[0] in ('call', 'handler', 'signal')]
                if seq[:1] != ['setVirtualHost'] or seq.count('setVirtualHost') != 1:
                    bad(s, m, d, 'the virtual host is not recorded before the connection is requested', st)
                else:
                    a = [e for e in st.tr if e[0] == 'call' and e[1] == 'setVirtualHost'][0][2]
                    fl = clientmsg.get('Open', set())
                    if not mentions(a, lambda t: t[0] == 'decoded' and t[1] == 'Open') and not any(mentions(a, lambda t: t == ('fld', ('obj', 'this'), f)) for f in fl):
                        bad(s, m, d, 'the virtual host recorded is not the one in the open request', st)
            elif wh and hnd not in ([wh], []):
                bad(s, m, d, 'handlers %s are run where %s is due' % (hnd, wh), st)
            elif not wh and hnd:
                bad(s, m, d, 'a connection handler is run', st)
            if w[0] == 'go':
                okcov.add((s, m, d))
    for st, t, v, w_ in thr:
        for s, m, d in combos(st):
            ctx.count('error_entries_checked')
            w = spec(s, m, d)
            failed = any(e[0] == 'decode' and not e[3] for e in st.tr)
            if w[0] in ('go', 'stay') and not failed and not (d == 'EGRESS' and s in ('START_SENT', 'TUNE_SENT', 'AWAITING_OPEN')):
                bad(s, m, d, 'the message that is due (or to be ignored) is refused', st)
            if nstate(st) not in (None, s, 'ERROR'):
                bad(s, m, d, 'the conversation moves although the message is refused', st)
            if any(e[0] in ('handler', 'signal') for e in st.tr):
                bad(s, m, d, 'a handler runs although the message is refused', st)
    for s in states:
        for m in list(MSG.values()):
            for d in ft:
                w = spec(s, m, d)
                if w[0] == 'go' and (s, m, d) not in okcov and not (d == 'EGRESS' and s in ('START_SENT', 'TUNE_SENT', 'AWAITING_OPEN')):
                    ctx.violation('no step: %s in %s' % (m, s), 'message %s in state %s never advances the conversation' % (m, s), loc_of(fn))
    # protocol header ------------------------------------------------------------
    fb = rb[0]
    outs, thr = E.run(fb)
    for st, v, l in outs:
        o, pb = outputs(E, st, M['buf'])
        ns = nstate(st)
        side = num(E.load(st, ('fld', ('obj', 'this'), M['side'])))
        buf = E.load(st, ('fld', ('obj', 'this'), M['buf']))
        match = None
        for a, x in st.facts.items():
            if mentions(a, lambda t: t[0] == 'call' and isinstance(t[1], str) and t[1].endswith('equalContents')):
                match = bool(match) or (x is True)
        for s, sn in states.items():
            if not can(st, sv, ('enum', s, sn)):
                continue
            ctx.count('header_entries_checked')

            def hb(text):
                ctx.violation('header in %s: %s' % (s, text), 'protocol header in state %s: %s' % (s, text), loc_of(fb), trace_lines(st))
            if s == 'AWAITING_PROTOCOL_HEADER':
                if match is None:
                    hb('accepted without comparing it')
                elif match:
                    if ns != 'START_SENT' or [x[0] for x in o] != ['Start'] or side != 1:
                        hb('a correct header is not answered with Start')
                else:
                    if ns != 'ERROR' or o or side != 1:
                        hb('a wrong header is not answered with the supported header and an error')
            elif ns != 'ERROR' or o:
                hb('a header out of place is not an error')
    if thr:
        ctx.violation('header throws', 'a protocol header raises an exception', loc_of(fb), trace_lines(thr[0][0]))
    # nothing else moves it --------------------------------------------------------
    for f in ctx.P.functions.values():
        if f.get('cl') != NS + 'Connector' or not f.get('b') or f.get('lam') or f['id'] in (fn['id'], fb['id']):
            continue
        q = f['qn'].replace(NS, '')
        if f.get('kind') == 'ctor':
            outs, thr = E.run(f)
            for st, v, l in outs:
                if nstate(st) != 'AWAITING_PROTOCOL_HEADER':
                    ctx.violation('initial state', 'a new connection starts in state %s' % nstate(st), loc_of(f), trace_lines(st))
            continue
        if f.get('kind') == 'dtor':
            continue
        outs, thr = E.run(f)
        for st, v, l in outs:
            ctx.count('other_method_paths')
            ns = nstate(st)
            if last(q) == 'synthesizeClose':
                a = [p['n'] for p in f['p']]
                t = E.decide(st, ('t', ('arg', a[0])))
                o, pb = outputs(E, st, M['buf'])
                side = E.load(st, ('fld', ('obj', 'this'), M['side']))
                okside = side == ('arg', a[0]) or (t is not None and num(side) is not None and bool(num(side)) == t)
                want = 'CLIENT_CLOSE_SENT' if t else 'SERVER_CLOSE_SENT'
                if t is None or ns != want or [x[0] for x in o] != ['Close'] or not okside:
                    ctx.violation('synthesizeClose', 'closing does not send exactly a Close to the side it names and wait for it', loc_of(f), trace_lines(st))
            elif ns is not None and f.get('acc') == 0:
                ctx.violation('%s moves the conversation' % q, '%s changes the state of the conversation (to %s)' % (q, ns), loc_of(f), trace_lines(st))
    dispatch(ctx, E, states)
    ctx.done(E)


def reconnect(E, st):
    return any(x is True and mentions(a, lambda t: t[0] == 'fld' and 'reconnect' in str(t[2]).lower()) for a, x in st.facts.items())


def dispatch(ctx, E0, states):
    """complete method frames of the connection class, and only they, reach the handshake, once and with their direction"""
    import pproc
    cfg, E, fn, outs, thr, orig, off, dname = pproc.analyse_process(ctx)
    T = ('obj', 'this')
    n = 0

    def eqn(st, v, k):
        at, p = E.atom_eq(v, ('int', k))
        if at is True or at is False:
            return at == p
        d = E.decide(st, at)
        return None if d is None else d == p

    def routed(st):
        s = E.load(st, ('obj', 'ghost-side'))
        at, p = E.atom_truth(s) if hasattr(E, 'atom_truth') else (('t', s), True)
        side = E.decide(st, at)
        o = E.load(st, ('obj', 'ghost-out'))
        ing, egr = cfg.wbufs(E, st)
        to, other = (ing, egr) if side == p else (egr, ing)
        g = lambda b, f: E.getf(b, f)
        same = all(g(to, f) == g(o, f) for f in (cfg.bp, cfg.bl, cfg.bo))
        return side is not None and same and num(g(other, cfg.bl)) == 0
    for head, e, tr, w in cfg.iters:
        fi = [i for i, x in enumerate(tr) if x[0] == 'frame']
        if not fi:
            continue
        ctx.count('dispatch_paths')
        f = tr[fi[-1]]
        after = tr[fi[-1]:]
        rec = [x for x in after if x[0] == 'receive']

        def bad(key, text):
            ctx.violation('dispatch: ' + key, text, loc_of(fn), trace_lines(e))
        t1 = eqn(e, f[1], 1)
        op = pproc.decide_eq(E, e, f[2], 'OPEN', states['OPEN'])
        md = [x for x in after if x[0] == 'mdecode']
        want = None
        if t1 is False or op is True:
            want = False
        elif t1 and op is False and md:
            ok = md[-1][1] == TRUE
            cl = eqn(e, md[-1][2], 10)
            if (md[-1][3], md[-1][4]) != (f[4], f[5]):
                bad('payload', 'a method is decoded from something else than the payload of its frame')
            want = False if not ok else cl
        if want is None:
            bad('undecided', 'a frame is handled without establishing whether it is a handshake method')
        elif want is False:
            if rec:
                bad('not a handshake method', 'something that is no handshake method is handed to the handshake')
            if w != f[3]:
                bad('pending reply', 'a frame that is no handshake method changes what is about to be written')
        else:
            n += 1
            if len(rec) != 1 or rec[0][1] != 'method':
                bad('once', 'a handshake method is not handed to the handshake exactly once')
            else:
                if rec[0][2][1] != ('arg', dname):
                    bad('direction', 'a handshake method is handed over with a direction that is not its own')
                if not routed(e):
                    bad('reply side', 'the reply of the handshake is not routed to the side the handshake names')
    ctx.require(n, 'a path that hands a method to the handshake')
    for st, v, l in outs:
        h = [x for x in st.tr if x[0] == 'receive' and x[1] == 'header']
        aw = pproc.decide_eq(E, st, ('sym', 'state0', 0), 'AWAITING_PROTOCOL_HEADER', states['AWAITING_PROTOCOL_HEADER'])
        ctx.count('header_dispatch_paths')
        if aw:
            room = E.entails(st, lin_add(off, ('int', -8)))
            short = E.entails(st, lin_add(('int', 7), off, -1))
            ok = len(h) == 1 and len([x for x in st.tr if x[0] == 'receive']) == 1 and routed(st) if room else not h and short
            if not ok:
                ctx.violation('dispatch: header', 'the first eight bytes of a client are not handed to the handshake exactly once as its protocol header', loc_of(fn), trace_lines(st))
        elif h:
            ctx.violation('dispatch: header later', 'data after the protocol header is taken for a protocol header', loc_of(fn), trace_lines(st))
    ctx.done(E)
