"""C23: the broker learns the true client address and proxy identity."""
from checklib import *
from sessx import *
from tab import *
from text import *
from connx import ConnCfg, members, outputs
from flow07 import handler_fn

EXPLANATION = ('Path analysis of the connect handler and its continuations (header before anything else exactly when the broker asks for it), the text of the '
               'header and of the added client properties followed through streams and strings to its parts, and the setters and getters the addresses and credentials pass through.')
T = ('obj', 'this')


class C(FlowCfg):
    cont_event = True

    def tag(self, eng, st, c):
        if c.name in ('async_read_some', 'async_handshake', 'async_shutdown', 'async_connect') and 'SocketAdaptor' in c.bqn:
            return (c.name[6:], self.sockname(eng, c)) + (('after header',) if c.name == 'async_handshake' and self.current.ts[-1:] == ('header',) else ())
        if c.bqn == 'boost::asio::async_write' or c.name == 'async_write_some':
            hd = any(e[0] == 'synth' and e[1] == 'synthesizeProxyProtocolHeader' for e in st.tr)
            return ('write', self.sockname(eng, c, 0 if c.name == 'async_write' else None)) + (('header',) if hd else ())
        if c.name == 'authenticate':
            return ('verdict', None)
        return ()

    def boundary(self, eng, st, c):
        if c.bqn.startswith(NS + 'SessionState::') and c.name in ('setIngress', 'setEgress'):
            s = st.emit('endpoints', c.name, c.args)
            return [(s, ('void',), None)]
        if c.bqn.startswith(NS + 'Connector::') and c.name == 'setAuthReasonAsClientProperties':
            return [(st.emit('connector', c.name, c.args), ('void',), None)]
        if 'SocketAdaptor' in c.bqn and c.name in ('local_endpoint', 'remote_endpoint'):
            k = self.sockname(eng, c)
            s = st
            if c.locs and c.locs[0] is not None:
                s, t = eng.site(st, c.fr, c.node)
                s = eng.havoc(s, c.locs[0], (t, 1))
            return [(s, ('sockaddr', c.name, k), None)]
        r = text_call(eng, st, c)
        if r is not None:
            return r
        return super().boundary(eng, st, c)

    def inline(self, eng, fn):
        if fn['file'].endswith(('amqpprox_backend.h', 'amqpprox_backend.cpp', 'amqpprox_constants.h')) or 'proxyprotocolheader' in fn['file']:
            return True
        return super().inline(eng, fn)


class ConnC(ConnCfg):
    def boundary(self, eng, st, c):
        if c.name == 'pushField':
            return [(st.emit('push', c.recvloc, text(c.args[0]), c.args[1]), ('void',), None)]
        if c.name == 'reset' and 'FieldTable' in c.bqn:
            return st.emit('drop', c.recvloc)
        if c.name == 'injectProxyClientIdent':
            return None
        if c.name == 'hostname' and c.bqn.endswith('SessionState::hostname'):
            return [(st, ('hostname', c.args[0]), None)]
        r = text_call(eng, st, c)
        return r if r is not None else super().boundary(eng, st, c)

    def inline(self, eng, fn):
        return super().inline(eng, fn) or fn['file'].endswith(('amqpprox_connectorutil.cpp', 'amqpprox_fieldvalue.h', 'amqpprox_fieldvalue.cpp', 'amqpprox_sessionstate.h', 'amqpprox_sessionstate.cpp')) \
            or 'amqpprox_methods_' in fn['file']


class Small(EffectCfg):
    def inline(self, eng, fn):
        return True


def run(ctx):
    ctx.rule('first bytes to a broker: the header if and only if proxyProtocolEnabled() of the broker being connected, the handshake only in the handler of that write')
    ctx.rule('header = PROXY <family> <client address> <broker address> <client port> <broker port> CR LF, both addresses of the named family')
    ctx.rule('StartOk for the broker = the one of the client + amqpprox_client (client address:port) + amqpprox_host (proxy host); credentials replaced only by those of the verdict')
    cfg = C(ctx)
    E = Engine(ctx.P, cfg)
    cfg.bound_sizes(E)
    ss = Engine(ctx.P, Small())

    def pair(q):
        o = {tuple(field_of(recd(v).get(k, ())) for k in ('first', 'second')) for f in ctx.fns(q) for st, v, l in ss.run(f)[0]}
        ctx.require(len(o) == 1 and None not in next(iter(o)), q)
        return o.pop()
    ends = {'setIngress': pair('SessionState::getIngress'), 'setEgress': pair('SessionState::getEgress')}
    for q, (loc, rem) in ends.items():
        for f in ctx.fns('SessionState::' + q):
            for st, v, l in ss.run(f)[0]:
                ctx.count('setter_paths')
                for fld, i, what in ((loc, 1, 'local'), (rem, 2, 'remote')):
                    if ss.load(st, ('fld', T, fld)) not in argval(f, i):
                        ctx.violation('SessionState::%s %s' % (q, what), 'the %s address of that side is not recorded where it is read from' % what, loc_of(f), trace_lines(st))
    cli = ('ld', ('fld', cfg.ss, ends['setIngress'][1]), 0)
    brk = ('fld', cfg.ss, ends['setEgress'][1])
    res = explore(E, public_entries(ctx, E))
    cfg.roles(res)
    ctx.count('entry_points_and_handlers', len(res))
    bf = {x['n'] for x in ctx.record('Backend')['fields']}
    flag = {v[1][2] for f in ctx.fns('Backend::proxyProtocolEnabled') for st, v, l in ss.run(f)[0] if v[0] == 'ld'}
    port = {v[1][2] for f in ctx.fns('Backend::port') for st, v, l in ss.run(f)[0] if v[0] == 'ld'}
    ctx.require(len(flag) == 1 and len(port) == 1, 'accessors of Backend')
    flag, port = flag.pop(), port.pop()
    retry = None

    def bad(e, st, key, t):
        ctx.violation(key, t, '%s:%s' % (e.site[1], e.site[2]), chain(ctx, e) + trace_lines(st))

    def addr_ok(st, x, who):
        """x: text of the address of an endpoint -> 'v4', 'v6', None (wrong) or 'impossible'"""
        x = text(x)
        i = items(x)
        if len(i) != 1 or i[0][0] != 'text-of':
            return None
        a = i[0][1]
        mapped = False
        if a[0] == 'call' and a[1].endswith('::make_address_v6') and len(a[3]) == 2 and pp(a[3][0]).endswith('v4_mapped') and a[3][1][0] == 'call' and a[3][1][1].endswith('::to_v4'):
            mapped, a = True, a[3][1][2]
        if not (a[0] == 'call' and a[1].endswith('::address') and who(a[2])):
            return None
        f = {}
        for n in ('is_v4', 'is_v6'):
            for at, b in st.facts.items():
                if at[0] == 't' and at[1][0] == 'call' and at[1][1].endswith('::' + n) and at[1][2] == a:
                    f[n] = b
        v4 = f.get('is_v4', None if 'is_v6' not in f else not f['is_v6'])
        v6 = f.get('is_v6', None if 'is_v4' not in f else not f['is_v4'])
        if v4 is not None and v4 == v6:
            return 'impossible'
        if mapped:
            return 'v6' if v4 else None
        return None if v4 is None else 'v4' if v4 else 'v6'

    def check_header(e, st, x, B):
        i = items(x)
        ok = len(i) >= 3 and i[0][0] == 'str' and i[0][1] in ('PROXY TCP4 ', 'PROXY TCP6 ') and i[-1] == ('str', '\r\n')
        body = i[1:-1]
        ok = ok and len(body) == 7 and all(body[j] == ('str', ' ') for j in (1, 3, 5))
        if not ok:
            bad(e, st, 'header: layout', 'the header is not "PROXY family source destination sourceport destinationport CR LF": ' + pp(x)[:200])
            return
        is_cli = lambda t: t == cli or t[0] == 'ld' and t[1] == cli[1]
        reml = E.load(st, brk)
        is_brk = lambda t: t == reml or t == ('sockaddr', 'remote_endpoint', cfg.broker)
        s, d = addr_ok(st, body[0], is_cli), addr_ok(st, body[2], is_brk)
        if 'impossible' in (s, d):
            return
        ctx.count('header_texts')
        if s is None:
            bad(e, st, 'header: source', 'the source address in the header is not the address of the client in the form the family calls for: ' + pp(body[0])[:200])
        elif d is None:
            bad(e, st, 'header: destination', 'the destination address in the header is not the address of the broker in the form the family calls for: ' + pp(body[2])[:200])
        elif {'PROXY TCP4 ': 'v4', 'PROXY TCP6 ': 'v6'}[i[0][1]] != s or s != d:
            bad(e, st, 'header: family', 'the family named in the header (%s) is not that of its addresses (%s, %s)' % (i[0][1].split()[1], s, d))
        sp, dp = body[4], body[6]
        if not (sp[0] == 'call' and sp[1].endswith('::port') and is_cli(sp[2])):
            bad(e, st, 'header: source port', 'the source port in the header is not the port of the client: ' + pp(sp)[:200])
        if not (dp[0] == 'ld' and dp[1][0] == 'fld' and dp[1][2] == port and B is not None and dp[1][1] == ('deref', B) or
                dp[0] == 'call' and dp[1].endswith('::port') and is_brk(dp[2])):
            bad(e, st, 'header: destination port', 'the destination port in the header is not the port of the broker: ' + pp(dp)[:200])

    n_conn = n_hdr = n_auth = 0
    short = lambda e: e.name(ctx.P).split(' at ')[0]
    for e, outs, thr in res:
        op = e.ts[0] if e.ts else None
        sock = e.ts[1] if len(e.ts) > 1 else None
        fn = handler_fn(ctx, e)
        for st, v, l in outs:
            ctx.count('paths')
            tr = st.tr
            hd = [j for j, x in enumerate(tr) if x[0] == 'synth' and x[1] == 'synthesizeProxyProtocolHeader']
            hs = [j for j, x in enumerate(tr) if x[0] == 'handshake' and x[1] == cfg.broker]
            wr = [j for j, x in enumerate(tr) if x[0] in ('awrite', 'awrite_some', 'swrite') and x[1] == cfg.broker]
            if hd and op != 'connect':
                bad(e, st, 'header outside the connect handler', 'a header is produced elsewhere than right after connecting')
                continue
            for x in tr:
                if x[0] == 'endpoints':
                    want = cfg.client if x[1] == 'setIngress' else cfg.broker
                    ctx.count('addresses_recorded')
                    for i, k in ((1, 'local_endpoint'), (2, 'remote_endpoint')):
                        if x[2][i] != ('sockaddr', k, want):
                            bad(e, st, '%s: %s' % (x[1], k), 'the %s recorded for the %s side is not that of its socket: %s' % (k.replace('_', ' '), 'client' if x[1] == 'setIngress' else 'broker', pp(x[2][i])[:100]))
            if op == 'connect' and (hd or hs or wr):
                n_conn += 1
                ctx.count('connected_paths')
                flags = {a[1][1][1]: b for a, b in st.facts.items() if a[0] == 't' and a[1][0] == 'ld' and a[1][1][0] == 'fld' and a[1][1][2] == flag and a[1][1][1][0] == 'deref'}
                cur = [x[1] for x in flags if 'getConnection' in repr(x)]
                if len(flags) != 1 or len(cur) != 1:
                    bad(e, st, 'flag not looked at', 'whether the broker wants the header is not looked at (or not for the broker being connected)')
                    continue
                en = list(flags.values())[0]
                for x in tr:
                    if x[0] == 'getConnection' and field_of(x[1][0]) is None:
                        bad(e, st, 'which broker', 'the broker asked about the header is not the one being connected: %s' % pp(x[1][0])[:100])
                if en:
                    n_hdr += 1
                    if not any(x[0] == 'endpoints' and x[1] == 'setEgress' for x in tr[:hd[0] if hd else 0]):
                        bad(e, st, 'address not recorded', 'the header is built before the address of the broker is recorded')
                    if len(hd) != 1 or not wr or wr[0] < hd[0]:
                        bad(e, st, 'header missing', 'the broker wants the header but something else is sent first or nothing is')
                        continue
                    if hs:
                        bad(e, st, 'handshake with the header', 'the handshake is started before the header has been written')
                    if len(wr) != 1:
                        bad(e, st, 'header: other data', 'more than the header is written to the broker before the header is through')
                    w = tr[wr[0]]
                    o = [x for x in tr[hd[0]:wr[0]] if x[0] == 'synth'][-1]
                    p, n = w[2], w[3]
                    if o is not tr[hd[0]] or not any('out' in repr(y) for y in (p,)):
                        bad(e, st, 'header not written', 'what is written to the broker first is not the header: %s' % pp(p)[:100])
                    else:
                        ob = [y for y in subterms(p) if y[0] == 'sym' and y[1] == 'out']
                        g = lambda f: ('getf', ob[0], f)
                        okp = ob and text_eq(E, st, p, n, ob[0], cfg)
                        if not okp:
                            bad(e, st, 'header not written', 'not the whole header is written: %s, %s' % (pp(p)[:100], pp(n)[:150]))
                    check_header(e, st, tr[hd[0]][2][0], cur[0])
                else:
                    if hd:
                        bad(e, st, 'header unasked', 'a header is sent to a broker that does not want it')
                    if wr:
                        bad(e, st, 'data before the handshake', 'something is written to the broker before the handshake')
                    if len(hs) != 1:
                        bad(e, st, 'no handshake', 'the handshake with the broker is not started exactly once')
            if e.ts[-1:] == ('header',):
                ec = None
                for a, b in st.facts.items():
                    if a[0] == 't' and fn is not None and fn['p'] and a[1] in argval(fn, 0):
                        ec = b
                if ec is not True and (len(hs) != 1 or wr):
                    bad(e, st, 'after the header', 'the handshake does not follow the header directly')
                if ec is True and (hs or wr):
                    bad(e, st, 'after a failed header', 'the session goes on although the header could not be written')
            # credentials
            cr = [x for x in tr if x[0] == 'connector' and x[1] == 'setAuthMechanismCredentials']
            if cr and op != 'verdict':
                bad(e, st, 'credentials replaced elsewhere', 'the credentials of the client are replaced outside the verdict of the authentication')
            if op == 'verdict':
                ad = {b for a, b in st.facts.items() if a[0] == 't' and a[1][0] == 'call' and a[1][1].endswith('::has_authdata')}
                go = [j for j, x in enumerate(tr) if x[0] in ('resolve', 'getConnection', 'connect')]
                if cr:
                    n_auth += 1
                    m, p = cr[-1][2][0], cr[-1][2][1]
                    if ad != {True}:
                        bad(e, st, 'credentials not supplied', 'the credentials are replaced although the verdict did not supply any')
                    if not (is_part(m, 'authmechanism') and is_part(p, 'credentials')):
                        bad(e, st, 'credentials mixed up', 'the mechanism and credentials put in place are not those of the verdict: %s, %s' % (pp(m)[:80], pp(p)[:80]))
                    if go and tr.index(cr[-1]) > go[0]:
                        bad(e, st, 'credentials late', 'the credentials are replaced after the connection was started')
                elif go and ad != {False}:
                    bad(e, st, 'credentials not taken over', 'the credentials supplied with the verdict are not used')
    ctx.require(n_conn, 'paths on which the broker is connected')
    if not n_hdr:
        ctx.violation('no header', 'no path sends the header to a broker that wants it', loc_of(ctx.fn('Session::start')))
    if not n_auth:
        ctx.violation('no substitution', 'the credentials supplied by the authentication are never used', loc_of(ctx.fn('Session::start')))
    connector(ctx, ends)
    ctx.done(E)


def text_eq(E, st, p, n, ob, cfg):
    """p, n: start and length written; the whole of the buffer ob?"""
    g = lambda f: E.getf(ob, f)
    ptr = E.load(st, ('fld', ('obj', 'conn-out'), cfg.bp)), E.load(st, ('fld', ('obj', 'conn-out'), cfg.bo)), E.load(st, ('fld', ('obj', 'conn-out'), cfg.bl))
    a = lin_add(ptr[0], ptr[1], 1)
    b = lin_add(ptr[2], ptr[1], -1)
    strip = lambda t: t[3] if t[0] == 'trunc' and len(t) > 3 else t
    return (p == a or p == ptr[0]) and (strip(n) == b or n == b or pp(n).find(pp(b)) >= 0 or n == ptr[2])


def is_part(v, name):
    return any(x and x[0] == 'call' and x[1].endswith('SASL::' + name) for x in subterms(v)) and 'authdata' in repr(v)


def connector(ctx, ends):
    """what the handshake class adds to the StartOk of the client, and how the setters store"""
    cfg = ConnC()
    E = Engine(ctx.P, cfg)
    M = members(ctx, Engine(ctx.P, ConnCfg()))
    en = dict(ctx.P.enums[NS + 'Connector::State'])
    fn = [f for f in ctx.fns('Connector::receive') if any('Method' in p['t'] for p in f['p'])]
    ctx.require(len(fn) == 1, 'Connector::receive')
    fn = fn[0]
    S = ('fld', T, M['state'])
    ssp = [f['n'] for f in ctx.record('Connector')['fields'] if 'SessionState' in f['t']]
    ctx.require(len(ssp) == 1, 'session state of the handshake')
    host = [f['n'] for f in ctx.record('Connector')['fields'] if 'string' in f['t'] and 'ost' in f['n']]
    ctx.require(len(host) == 1, 'host name of the proxy')
    sess = ('deref', ('ld', ('fld', T, ssp[0]), 0))
    cli = ('ld', ('fld', sess, ends['setIngress'][1]), 0)
    sec = ('ld', ('fld', sess, field_of(next(v for f in ctx.fns('SessionState::getIngressSecured') for st, v, l in E.run(f)[0]))), 0)
    so = set()
    outs, thr = E.run(fn)
    cand = []
    for st, v, l in outs:
        for x in st.tr:
            if x[0] == 'decode' and x[1] == 'StartOk' and x[3]:
                so.add(field_of(x[2]))
        cand.append(st)
    ctx.require(len(so) == 1 and None not in so, 'the StartOk of the client')
    so = so.pop()
    SO = ('fld', T, so)
    n = 0

    def bad(st, key, t):
        ctx.violation(key, t, loc_of(fn), trace_lines(st))
    for st in cand:
        ctx.count('handshake_paths')
        m = [j for j, x in enumerate(st.tr) if x[0] == 'message' and x[1] == 'StartOk']
        touched = [x for x in st.tr if x[0] in ('push', 'drop') and x[1] is not None and climb(SO, x[1]) is not None]
        wrote = [x for x in st.tr if x[0] in ('assign', 'mut') and x[1] == so]
        if not m:
            if touched or wrote:
                if not any(x[0] == 'decode' and x[1] == 'StartOk' for x in st.tr):
                    bad(st, 'StartOk changed', 'what the client sent is changed where it is not forwarded')
            continue
        n += 1
        if wrote or any(x[0] == 'drop' for x in touched):
            bad(st, 'StartOk changed', 'what the client sent is changed before it is forwarded')
        msg = st.tr[m[0]]
        if msg[2] != so:
            bad(st, 'StartOk other', 'the StartOk forwarded is not the one of the client')
        got = {}
        for j, x in enumerate(st.tr):
            if x[0] == 'push' and x in touched:
                if j > m[0]:
                    continue
                name = x[2][1] if x[2][0] == 'str' else pp(x[2])
                got.setdefault(name, []).append(x[3])
        for k in ('amqpprox_client', 'amqpprox_host'):
            if len(got.get(k, [])) != 1:
                bad(st, k + ' missing', 'the client properties given to the broker do not carry %s exactly once' % k)
        tl = None
        for a, b in st.facts.items():
            if a == ('t', sec):
                tl = b
        for v in got.get('amqpprox_client', []):
            i = value_text(v)
            okh = i and i[0] == ('hostname', cli)
            want = [('hostname', cli), ('str', ':'), port_of(cli)]
            w1 = tuple(want) + ((('str', ' TLS'),) if tl else ())
            if i is None or not okh or list(i[:3]) != want:
                bad(st, 'amqpprox_client: address', 'the client address given to the broker is not that of the client: %s' % pp(v)[:300])
            elif tuple(i) != w1:
                bad(st, 'amqpprox_client: TLS', 'whether the client is secured is not told as it is: %s' % pp(v)[:200])
        for v in got.get('amqpprox_host', []):
            i = value_text(v)
            lp = port_of(('ld', ('fld', sess, ends['setIngress'][0]), 0))
            ep = port_of(('ld', ('fld', sess, ends['setEgress'][0]), 0))
            want = (('str', '(:'), lp, ('str', ') '), ('ld', ('fld', T, host[0]), 0), ('str', ':'), ep)
            if i is None or tuple(i) != want:
                bad(st, 'amqpprox_host: identity', 'the proxy identity given to the broker is not "(:listening port) host:outgoing port": %s' % pp(v)[:300])
        for k in got:
            if k not in ('amqpprox_client', 'amqpprox_host'):
                bad(st, 'property ' + k, 'a property the client did not send is added: ' + k)
    ctx.require(n, 'a path that forwards the StartOk')
    # setters and getters
    sm = Engine(ctx.P, Small())
    gp = {tuple(recd(v).get(k, ()) for k in ('first', 'second')) for f in ctx.fns('Connector::getAuthMechanismCredentials') for st, v, l in sm.run(f)[0]}
    ctx.require(len(gp) == 1, 'Connector::getAuthMechanismCredentials')
    gm, gc = gp.pop()
    for f in ctx.fns('Connector::setAuthMechanismCredentials'):
        for st, v, l in sm.run(f)[0]:
            ctx.count('setter_paths')
            for what, t, i in (('mechanism', gm, 0), ('credentials', gc, 1)):
                if not (t and t[0] == 'ld' and sm.load(st, t[1]) in argval(f, i)):
                    ctx.violation('setAuthMechanismCredentials ' + what, 'the %s given is not the one put in the StartOk' % what, loc_of(f), trace_lines(st))
            for x in st.tr:
                if x[0] == 'assign' and x[1] == so and not any(climb_path(so, x) == t[1] for t in (gm, gc)):
                    ctx.violation('setAuthMechanismCredentials other', 'more than mechanism and credentials is replaced', loc_of(f), trace_lines(st))
    # which wire fields those are
    for f in ctx.fns('FieldTable::pushField'):
        for st, v, l in sm.run(f)[0]:
            ctx.count('setter_paths')
            m = [x for x in st.tr if x[0] in ('mut', 'assign', 'set', 'erase')]
            if len(m) != 1 or m[0][0] != 'mut' or m[0][2] not in ('push_back', 'emplace_back') or not all(
                    any(a in subs(m[0][3]) for a in argval(f, i)) for i in (0, 1)):
                ctx.violation('FieldTable::pushField', 'adding a property does not just append it', loc_of(f), trace_lines(st))
    header_copy(ctx, M)


def climb_path(so, x):
    l = ('fld', T, so)
    for p in x[2]:
        l = ('fld', l, p)
    return l


def subs(v):
    o = set()
    w = [v]
    while w:
        t = w.pop()
        if isinstance(t, tuple):
            o.add(t)
            w.extend(t)
    return o


def port_of(ep):
    return ('call', 'boost::asio::ip::basic_endpoint::port', ep, ())


def value_text(v):
    """items of the text in a FieldValue of type 'S'"""
    r = recd(v)
    t = [x for x in r.values() if num(x) == ord('S')]
    o = [x for x in r.values() if num(x) is None]
    if len(t) != 1 or len(o) != 1:
        return None
    x = o[0]
    while x[0] == 'mk' and x[2]:
        x = x[2][0]
    return items(x)


def header_copy(ctx, M):
    """the header given is what ends up in the output buffer"""
    E = Engine(ctx.P, ConnCfg())
    for f in ctx.fns('Connector::synthesizeProxyProtocolHeader'):
        for st, v, l in E.run(f)[0]:
            ctx.count('header_copies')
            b = ('fld', T, M['buf'])
            d, ln, of = (E.load(st, ('fld', b, x)) for x in ('d_data', 'd_length', 'd_offset'))
            cp = [x for x in st.tr if x[0] == 'copy']
            ok = len(cp) == 1 and d == cp[0][1] and num(of) == 0 and ln == cp[0][3] and cp[0][2] in argval(f, 0) and ln in [('size', a) for a in argval(f, 0)]
            if not ok:
                ctx.violation('Connector::synthesizeProxyProtocolHeader', 'the output is not exactly the header given', loc_of(f), trace_lines(st))
