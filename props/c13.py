"""C13: configured transport security is what is used on the wire."""
from checklib import *
from sessx import *
from sockx import *
from tab import *
from flow07 import handler_fn

EXPLANATION = ('Path analysis of the socket adaptor (which stream every operation goes through, for every consistent combination of "configured for TLS" and "TLS on"), of the '
               'listener (which context and which setting an accepted connection gets, including through re-arming and restarting), and of the session (what decides for the broker, '
               'and that it is decided before the first byte).')
T = ('obj', 'this')
DATA = ('read_some', 'async_read_some', 'write_some', 'async_write_some', 'read', 'write', 'async_read', 'async_write', 'async_receive', 'async_send', 'receive', 'send')


def run(ctx):
    ctx.rule('socket: data goes through the TLS stream if TLS is configured and the handshake was started, otherwise through the plain one; the handshake happens exactly if configured')
    ctx.rule('listener: an accepted connection gets the ingress context and the setting of the very listener that accepted it; the broker side gets the egress context')
    ctx.rule('session: the broker socket is set to tlsEnabled() of the broker connected, before its handshake and nowhere else; the client socket is never changed')
    adaptor(ctx)
    listener(ctx)
    session(ctx)
    contexts(ctx)


# --------------------------------------------------------------------------------------- socket
def flags(ctx):
    """the two switches of the adaptor: what setSecure writes, and what starting the handshake turns on"""
    sec, hs = set(), set()
    for f in adaptor_fns(ctx, 'setSecure'):
        E = Engine(ctx.P, SockCfg(ctx))
        for st, v, l in E.run(f)[0]:
            w = [e for e in st.tr if e[0] == 'assign']
            if len(w) != 1 or w[0][3] not in argval(f, 0):
                ctx.violation('setSecure', 'the setting is not stored as given', loc_of(f), trace_lines(st))
                continue
            sec.add(w[0][1])
    for f in adaptor_fns(ctx, 'async_handshake'):
        E = Engine(ctx.P, SockCfg(ctx))
        for st, v, l in E.run(f)[0]:
            hs |= {e[1] for e in st.tr if e[0] == 'assign' and num(e[3]) == 1}
    ctx.require(len(sec) == 1 and len(hs) <= 1, 'the switches of the socket adaptor')
    return sec.pop(), hs.pop() if hs else None


def adaptor(ctx):
    S, H = flags(ctx)
    ld = lambda f: ('ld', ('fld', T, f), 0)

    def truthy(E, st, f, b):
        d = E.decide(st, ('t', ld(f)))
        return d is None or d == b
    if H is None:
        for f in adaptor_fns(ctx, 'async_handshake')[:1]:
            ctx.violation('handshake not noted', 'the start of the handshake is not noted, so data cannot be switched to the TLS stream', loc_of(f))
        return
    seen = set()
    names = ('read_some', 'async_read_some', 'async_write_some', 'write_some', 'async_handshake', 'async_shutdown')
    for n in names:
        for f in adaptor_fns(ctx, n):
            E = Engine(ctx.P, SockCfg(ctx))
            outs, thr = E.run(f)
            ctx.count('adaptor_functions')
            seen.add(n)
            for st, v, l in outs:
                ctx.count('adaptor_paths')
                io = [e for e in st.tr if e[0] == 'io']
                for s, h in ((0, 0), (1, 0), (1, 1)):
                    if not (truthy(E, st, S, s) and truthy(E, st, H, h)):
                        continue
                    bad = lambda k, t: ctx.violation('%s: %s' % (n, k), t, loc_of(f), trace_lines(st))
                    tls = bool(s and h)
                    for e in io:
                        if e[1] in DATA and (e[2] == 'tls') != tls:
                            bad('stream', 'with TLS %s, data goes through the %s stream' % ('on' if tls else 'off' if not s else 'not started', 'encrypted' if e[2] == 'tls' else 'clear'))
                        if e[1] in ('async_handshake', 'handshake') and n != 'async_handshake':
                            bad('handshake', 'a handshake is started here')
                    if n == 'async_handshake':
                        hk = [e for e in io if 'handshake' in e[1]]
                        on = [e for e in st.tr if e[0] == 'assign' and e[1] == H]
                        ok = [e for e in st.tr if e[0] == 'invoke']
                        if s and (len(hk) != 1 or hk[0][2] != 'tls' or num(on[-1][3] if on else ('int', h)) != 1):
                            bad('no handshake', 'TLS is configured but no handshake happens (or it is not noted that TLS is on)')
                        if s and ok:
                            bad('early success', 'TLS is configured but success is reported without a handshake')
                        if not s and (hk or on):
                            bad('unasked handshake', 'TLS is negotiated although not configured')
                        if s and hk and pp(hk[0][3][0]) != pp(argval_first(f, 0)):
                            bad('role', 'the handshake is not done in the role asked for: %s' % pp(hk[0][3][0]))
                        if not s and not ok:
                            bad('no answer', 'without TLS the handler is not called')
                    for e in st.tr:
                        if e[0] == 'assign' and e[1] in (S, H) and not (n == 'async_handshake' and e[1] == H):
                            bad('switch', 'the switch %s is changed here' % e[1])
            ctx.done(E)
    ctx.require({'read_some', 'async_read_some', 'async_write_some', 'async_handshake'} <= seen, 'the operations of the socket adaptor')
    # nothing else changes the switches
    for f in ctx.P.functions.values():
        if not f.get('b') or f.get('lam') or not base_qn(f['qn']).startswith(AD + '::'):
            continue
        n = base_qn(f['qn'])[len(AD) + 2:]
        if n in names or n == 'setSecure' or n.startswith('~') or n.startswith('operator'):
            continue
        E = Engine(ctx.P, SockCfg(ctx))
        outs, thr = E.run(f)
        ctx.count('adaptor_functions')
        for st, v, l in outs:
            if n == 'MaybeSecureSocketAdaptor':
                ps = [p['n'] for p in f['p']]
                src = [p for p in f['p'] if 'MaybeSecureSocketAdaptor' in p['t']]
                sv, hv = E.load(st, ('fld', T, S)), E.load(st, ('fld', T, H))
                if src:
                    o = lambda x: ('ld', ('fld', ('obj', src[0]['n']), x), 0)
                    if sv != o(S) or hv != o(H):
                        ctx.violation('moved socket', 'a moved socket does not keep its security settings', loc_of(f), trace_lines(st))
                else:
                    b = [i for i, p in enumerate(f['p']) if p['t'] in ('bool', '_Bool')]
                    if len(b) == 1 and (sv not in argval(f, b[0]) or num(hv) != 0):
                        ctx.violation('new socket', 'a new socket does not take the security setting it is given, or starts with TLS on', loc_of(f), trace_lines(st))
                    c = [p for p in f['p'] if 'context' in p['t'] and 'ssl' in p['t']]
                    if c:
                        x = E.load(st, ('fld', T, SockCfg(ctx).stream))
                        x = E.load(st, x[1]) if x[0] == 'ptr' else x
                        if x[0] == 'mk' and c[0]['n'] not in pp(x):
                            ctx.violation('context of the stream', 'the stream is not made with the context given', loc_of(f), trace_lines(st))
            else:
                for e in st.tr:
                    if e[0] == 'assign' and e[1] in (S, H):
                        ctx.violation('switch in ' + n, 'the switch %s is changed here' % e[1], loc_of(f), trace_lines(st))
                    if e[0] == 'io' and e[1] in DATA:
                        secure = E.decide(st, ('t', ld(S))), E.decide(st, ('t', ld(H)))
                        if (e[2] == 'tls') != (secure == (True, True)) and not (e[2] == 'plain' and False in secure):
                            ctx.violation('stream in ' + n, 'data goes through the %s stream' % e[2], loc_of(f), trace_lines(st))
        ctx.done(E)


def argval_first(f, i):
    return sorted(argval(f, i), key=lambda x: x[0] != 'arg')[0]


# --------------------------------------------------------------------------------------- listener
class Lis(ContCfg):
    cont_event = True

    def inline(self, eng, fn):
        return fn['file'].endswith('amqpprox_server.cpp') or fn['file'].endswith('amqpprox_server.h')

    def keep(self, eng, st, v):
        if v[0] == 'ptr' and v[1][0] == 'heap':
            o = eng.load(st, v[1])
            if o[0] == 'mk' and (o[1] == AD or 'acceptor' in o[1]):
                return ('keep', o if o[1] == AD else 'listener')
        if v[0] == 'clos':
            return ('clos', v[1], tuple((d, m, self.keep(eng, st, x) if m == 'copy' else x) for d, m, x in v[2]), v[3])
        if v[0] == 'pbind':
            return ('pbind', v[1], tuple(self.keep(eng, st, x) for x in v[2]), v[3])
        return v

    def register(self, eng, st, c, v, idx):
        super().register(eng, st, c, self.keep(eng, st, v), idx)

    def boundary(self, eng, st, c):
        if c.name == 'async_accept':
            r = c.recvloc
            rv = ('ptr', r) if r is not None else c.recv
            if r is not None and r[0] == 'deref':
                rv = r[1]
            return st.emit('accept', self.keep(eng, st, rv), tuple(self.keep2(eng, st, x, l) for x, l in zip(c.args, c.locs)))
        if c.name == 'socket' and c.bqn.startswith(AD) and c.recvloc is not None:
            r = c.recvloc
            k = self.keep(eng, st, ('ptr', r)) if r[0] != 'deref' else r[1]
            return [(st, ('ptr', ('fld', ('deref', k), '$plain')), ('fld', ('deref', k), '$plain'))]
        return None

    def keep2(self, eng, st, x, l):
        return ('ptr', l) if l is not None and l[0] != 'var' else x


def listener(ctx):
    cfg = Lis()
    E = Engine(ctx.P, cfg)
    ents = []
    for f in ctx.fns('Server::startListening'):
        ctx.require(len(f['p']) == 2, 'Server::startListening(port, secure)')
        ents.append(Entry(('pbind', ('fn', f['id'], f['qn']), (('keep', 'port'), ('keep', 'secure')), False), 'api', (), (f['qn'], f['file'], f['l'])))
    res = []
    for f in ctx.fns('Server::startListening'):
        cfg.current = ents[0]
        outs, thr = E.run(f, args=[('keep', 'port'), ('keep', 'secure')])
        res.append((Entry(('fn', f['id'], f['qn']), 'api', (), (f['qn'], f['file'], f['l'])), outs, thr))
    first = list(cfg.pending)
    cfg.pending[:] = []
    res += explore(E, first)
    ctx.count('listener_entry_points_and_handlers', len(res))
    n_acc = n_ses = 0
    SEC = ('keep', 'secure')
    for e, outs, thr in res:
        for st, v, l in outs:
            ctx.count('listener_paths')
            bad = lambda k, t: ctx.violation(k, t, '%s:%s' % (e.site[1], e.site[2]), chain(ctx, e) + trace_lines(st))
            for x in st.tr:
                if x[0] == 'accept':
                    n_acc += 1
                    ad = [y[1] for a in x[2] for y in subterms(a) if y and y[0] == 'keep' and isinstance(y[1], tuple)]
                    if not ad:
                        bad('accepted socket', 'a connection is accepted into something that is not a socket made for it')
                        continue
                    check_ad(E, ctx, st, ad[0], 'd_ingressTlsContext', x[1], bad)
            for s in sessions(E, st):
                n_ses += 1
                a = s[2]
                socks = [sock_of(E, st, y) for y in a]
                idx = [i for i, y in enumerate(socks) if y]
                if len(idx) != 2:
                    bad('session sockets', 'a session is not made with its two sockets')
                    continue
                ci, bi = idx
                if not ctx_is(socks[ci], ctx, 'ingressTlsContext'):
                    bad('client context', 'the client side of a session does not use the ingress context')
                if not ctx_is(socks[bi], ctx, 'egressTlsContext'):
                    bad('broker context', 'the broker side of a session does not use the egress context')
                if socks[ci] == socks[bi]:
                    bad('same socket', 'both sides of a session are the same socket')
    ctx.require(n_acc, 'accepting connections')
    ctx.require(n_ses, 'a session for an accepted connection')
    ctx.done(E)
    # the session takes the first for the client and the second for the broker
    cfg2 = FlowCfg(ctx)
    E = Engine(ctx.P, cfg2)
    cs = [f for f in ctx.fns('Session::Session') if len(f['p']) > 3]
    ctx.require(cs, 'the constructor of a session')
    res = explore(E, [x for x in public_entries(ctx, E) if x.f[2].endswith('Session::start')])
    cfg2.roles(res)
    E = Engine(ctx.P, cfg2)
    for f in cs:
        ix = [i for i, p in enumerate(f['p']) if 'MaybeSecureSocketAdaptor' in p['t']]
        for st, v, l in E.run(f)[0]:
            ctx.count('session_constructor_paths')
            for i, w in zip(ix, (cfg2.client, cfg2.broker)):
                got = E.load(st, ('fld', T, w))
                if got not in argval(f, i):
                    ctx.violation('session: ' + w, 'the socket facing the %s is not the one given for it' % ('client' if w == cfg2.client else 'broker'), loc_of(f), trace_lines(st))
    ctx.done(E)


def sock_of(E, st, v):
    if v[0] == 'keep' and isinstance(v[1], tuple):
        return v[1]
    if v[0] == 'ptr':
        o = E.load(st, v[1])
        if o[0] == 'mk' and o[1] == AD:
            return o
    return None


def sessions(E, st):
    out = []
    for k, v in st.mem.items():
        if v and v[0] == 'mk' and v[1] == NS + 'Session':
            out.append(v)
    return out


def ctx_is(mk, ctx, acc):
    want = context_member(ctx, acc)
    return any(x and x[0] == 'fld' and x[2] == want for x in subterms(mk))


_cm = {}


def context_member(ctx, acc):
    if acc not in _cm:
        E = Engine(ctx.P, Cfg())
        f = ctx.fn('Server::' + acc)
        v = {field_of(l) if l is not None else field_of(x) for st, x, l in E.run(f)[0]}
        ctx.require(len(v) == 1 and None not in v, 'Server::' + acc)
        _cm[acc] = v.pop()
    return _cm[acc]


def check_ad(E, ctx, st, mk, want, acceptor, bad):
    if not ctx_is(mk, ctx, 'ingressTlsContext'):
        bad('accept context', 'an accepted connection does not use the ingress context')
    sec = mk[2][-1]
    if sec == ('keep', 'secure'):
        # the setting of the listener that was started: the one accepted on has to be that very one
        if acceptor == ('keep', 'listener'):
            return
        same = [a for a, v in st.facts.items() if v and a[0] == '==' and ('keep', 'listener') in a[1:3]]
        if not same:
            bad('other listener', 'the connection is accepted on whatever listener has that port now, with the setting of the one that was started: after a restart of the port they can differ')
    elif any(x and x[0] in ('elem', 'at', 'ld') and 'd_listening' in pp(x) for x in subterms(sec)) and any(x and x[0] == 'fld' for x in subterms(acceptor)):
        return
    else:
        bad('accept setting', 'an accepted connection does not get the security setting of its listener: %s' % pp(sec)[:80])


# --------------------------------------------------------------------------------------- session
class C(FlowCfg):
    cont_event = True

    def tag(self, eng, st, c):
        if c.name in ('async_read_some', 'async_handshake', 'async_shutdown', 'async_connect') and 'SocketAdaptor' in c.bqn:
            return (c.name[6:], self.sockname(eng, c))
        if c.bqn == 'boost::asio::async_write' or c.name == 'async_write_some':
            hd = any(e[0] == 'synth' and e[1] == 'synthesizeProxyProtocolHeader' for e in st.tr)
            return ('write', self.sockname(eng, c, 0 if c.name == 'async_write' else None)) + (('header',) if hd else ())
        return ()

    def inline(self, eng, fn):
        if fn['file'].endswith(('amqpprox_backend.h', 'amqpprox_backend.cpp')):
            return True
        return super().inline(eng, fn)


def session(ctx):
    cfg = C(ctx)
    E = Engine(ctx.P, cfg)
    cfg.bound_sizes(E)
    res = explore(E, public_entries(ctx, E))
    cfg.roles(res)
    ctx.count('session_entry_points_and_handlers', len(res))
    ss = Engine(ctx.P, Cfg())
    flag = {v[1][2] for f in ctx.fns('Backend::tlsEnabled') for st, v, l in ss.run(f)[0] if v[0] == 'ld'}
    ctx.require(len(flag) == 1, 'Backend::tlsEnabled')
    flag = flag.pop()
    # the counter that says which broker is being connected
    cnt = set()
    n_sec = 0
    for e, outs, thr in res:
        op = e.ts[0] if e.ts else None
        sock = e.ts[1] if len(e.ts) > 1 else None
        fn = handler_fn(ctx, e)
        for st, v, l in outs:
            ctx.count('session_paths')
            tr = st.tr
            bad = lambda k, t: ctx.violation(k, t, '%s:%s' % (e.site[1], e.site[2]), chain(ctx, e) + trace_lines(st))
            sec = [(j, x) for j, x in enumerate(tr) if x[0] == 'secure']
            for j, x in sec:
                if x[1] != cfg.broker:
                    bad('client socket switched', 'the security of the client connection is changed by the session')
                    continue
                n_sec += 1
                val = x[2]
                b = None
                if val[0] == 'ld' and val[1][0] == 'fld' and val[1][2] == flag and val[1][1][0] == 'deref':
                    b = val[1][1][1]
                if b is None:
                    d = [(a[1][1][1][1], y) for a, y in st.facts.items() if a[0] == 't' and a[1][0] == 'ld' and a[1][1][0] == 'fld' and a[1][1][2] == flag and a[1][1][1][0] == 'deref']
                    if num(val) is not None and len(d) == 1 and bool(num(val)) == d[0][1]:
                        b = d[0][0]
                if b is None or not any(y and y[0] == 'call' and y[1].endswith('::getConnection') for y in subterms(b)):
                    bad('setting of the broker socket', 'the security of the broker connection is not the setting of the broker being connected: %s' % pp(val)[:100])
                else:
                    g = [y for y in subterms(b) if y and y[0] == 'call' and y[1].endswith('::getConnection')][0]
                    if field_of(g[3][0]) is None:
                        bad('which broker', 'the broker asked about TLS is not the one being connected')
                if op != 'connect':
                    bad('late switch', 'the security of the broker connection is set elsewhere than right after connecting')
            use = [j for j, x in enumerate(tr) if x[0] in ('handshake', 'awrite', 'awrite_some', 'swrite', 'aread', 'read') and x[1] == cfg.broker]
            if op == 'connect' and use:
                if not any(j < use[0] for j, x in sec):
                    bad('not decided', 'the connection to the broker is used before its security is set')
                for j, x in enumerate(tr):
                    if x[0] in ('awrite', 'awrite_some', 'swrite') and x[1] == cfg.broker and not any(y[0] == 'synth' and y[1] == 'synthesizeProxyProtocolHeader' for y in tr[:j]):
                        bad('data before the handshake', 'data is written to the broker before the TLS handshake')
                    if x[0] in ('aread', 'read') and x[1] == cfg.broker:
                        bad('read before the handshake', 'data is read from the broker before the TLS handshake')
            for x in tr:
                if x[0] == 'handshake':
                    ctx.count('handshakes')
                    want = 'server' if x[1] == cfg.client else 'client'
                    if not role_is(x[2], want):
                        bad('role ' + str(x[1]), 'towards the %s the proxy takes the role %s in the handshake' % ('client' if x[1] == cfg.client else 'broker', pp(x[2])))
                    if x[1] == cfg.broker and op not in ('connect', 'write'):
                        bad('late handshake', 'a handshake with the broker is started elsewhere than right after connecting')
                    if x[1] == cfg.client and e.kind != 'api':
                        bad('late handshake', 'a handshake with the client is started elsewhere than in start()')
            if e.kind == 'api' and e.f[2].endswith('Session::start'):
                hs = [j for j, x in enumerate(tr) if x[0] == 'handshake' and x[1] == cfg.client]
                us = [j for j, x in enumerate(tr) if x[0] in ('awrite', 'awrite_some', 'swrite', 'aread', 'read') and x[1] == cfg.client]
                if us:
                    bad('client data before the handshake', 'data is exchanged with the client before the handshake with it')
            if op == 'handshake' and fn is not None and fn['p']:
                failed = any(b and a[0] == 't' and a[1] in argval(fn, 0) for a, b in st.facts.items())
                use = [x for x in tr if x[0] in ('aread', 'read') and x[1] == sock]
                if failed and use:
                    bad('after a failed handshake', 'data is read after the handshake failed')
    ctx.require(n_sec, 'setting the security of the broker connection')
    ctx.done(E)


def role_is(v, want):
    if v[0] == 'enum':
        return v[1].rsplit('::', 1)[-1] == want
    if v[0] == 'ld':
        return pp(v).rsplit('::', 1)[-1] == want
    return num(v) == {'client': 0, 'server': 1}[want]


# --------------------------------------------------------------------------------------- contexts
def contexts(ctx):
    a, b = context_member(ctx, 'ingressTlsContext'), context_member(ctx, 'egressTlsContext')
    ctx.count('contexts', 2)
    if a == b:
        ctx.violation('contexts', 'both directions share one TLS context', loc_of(ctx.fn('Server::ingressTlsContext')))
    # settings given on the command line of one direction
    import c20
    cmds = c20.commands(ctx)
    for n in ('Tls', 'Listen', 'Backend'):
        rules = [r for r in c20.spec()[n]]
        c20.command(ctx, n, cmds[n + 'ControlCommand'], rules)
