"""C18: a broken or closed side always takes the whole session down."""
from checklib import *
from sessx import *
from tab import *
from flow07 import handler_fn, would_block

EXPLANATION = ('Path analysis of the session: for every completion handler of a socket operation the paths on which the operation failed, for the processing '
               'of received data the paths that end in a protocol error, an exception or an orderly close, and for the commands the paths that disconnect; each must '
               'mark the session with the right kind of end and close both sockets, itself or through the handlers it hands the work to.')
T = ('obj', 'this')


class C(FlowCfg):
    cont_event = True

    def __init__(self, ctx, thrown):
        super().__init__(ctx)
        self.thrown = thrown
        self.synths = {}

    def tag(self, eng, st, c):
        if c.name in ('async_read_some', 'async_handshake', 'async_shutdown', 'async_connect') and 'SocketAdaptor' in c.bqn:
            return (c.name[6:], self.sockname(eng, c))
        if c.bqn == 'boost::asio::async_write' or c.name == 'async_write_some':
            return ('write', self.sockname(eng, c, 0 if c.name == 'async_write' else None))
        if c.name == 'async_wait':
            return ('timer', None)
        if c.name == 'setConnectionCreationHandler':
            return ('create', None)
        return ()

    def throwing(self, eng, s, c):
        if eng.sinks:
            for t in self.thrown:
                eng.sinks[-1].append((s.emit('threw', t), t, ('unk', 'exception'), None))
        return [(s, ('void',), None)]

    def new_state(self, eng, st, c):
        s = super().new_state(eng, st, c)
        if c.name.startswith('synthesize'):
            k = (c.fn, tuple(x if num(x) is not None else None for x in c.args))
            if k not in self.synths:
                self.synths[k] = after_synth(self.ctx, eng.P.functions.get(c.fn), c.args)
            v, side = self.synths[k]
            if v == 'same':
                s.mem[CST] = self.cstate(eng, st)
            elif v is not None:
                s.mem[CST] = ('enum', v, self.cstates[v])
            if side is not None:
                s.mem[('obj', 'conn-side')] = side
            # the message is a complete frame (C02, C06), so never empty
            ln = eng.load(s, ('fld', ('obj', 'conn-out'), self.bl))
            s.facts[('t', ln)] = True
        return s


class SmallCfg(EffectCfg):
    def inline(self, eng, fn):
        return fn['qn'].startswith((NS + 'SessionState::', NS + 'Session::'))


class Plain(EffectCfg):
    max_states = 20000

    def inline(self, eng, fn):
        return fn['qn'].startswith(NS + 'Connector::')


def after_synth(ctx, fn, args):
    """the state a synthesize method always leaves the handshake in, 'same' if it leaves it alone, or None"""
    if fn is None or not fn.get('b'):
        return None, None
    E = Engine(ctx.P, Plain())
    st = ctx_state(ctx)
    side = {field_of(v) for f in ctx.fns('Connector::sendToIngressSide') for s, v, l in E.run(f)[0]}
    ctx.require(len(side) == 1 and None not in side, 'accessor Connector::sendToIngressSide')
    side = side.pop()
    out, sides = set(), set()
    a = [x if num(x) is not None else ('arg', p['n'] or str(i)) for i, (x, p) in enumerate(zip(args, fn['p']))]
    a += [('arg', p['n'] or str(i)) for i, p in enumerate(fn['p'])][len(a):]
    for s, v, l in E.run(fn, args=a)[0]:
        x = E.load(s, ('fld', T, st))
        out.add(x[1].rsplit('::', 1)[-1] if x[0] == 'enum' else 'same' if x == ('ld', ('fld', T, st), 0) else None)
        y = E.load(s, ('fld', T, side))
        if y != ('ld', ('fld', T, side), 0):    # left alone when there is no room for the message: then nothing is sent
            sides.add(None if num(y) is None else ('int', num(y)))
    return out.pop() if len(out) == 1 else None, sides.pop() if len(sides) == 1 else None


def ctx_state(ctx):
    f = [x['n'] for x in ctx.record('Connector')['fields'] if base_qn(x['t']).endswith('Connector::State') or x['t'] == 'State']
    ctx.require(len(f) == 1, 'the state member of the handshake')
    return f[0]


def thrown_types(ctx, qn):
    """types thrown by repository code reachable from a function"""
    seen, work, out = set(), list(ctx.fns(qn)), set()
    while work:
        f = work.pop()
        if f['id'] in seen:
            continue
        seen.add(f['id'])
        st = [f.get('b')]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'throw' or x.get('s') == 'throw':
                    t = x.get('t') or (x.get('e') or {}).get('t')
                    if t:
                        out.add(base_qn(t))
                if x.get('k') in ('call', 'ctor') and x.get('fn') in ctx.P.functions:
                    g = ctx.P.functions[x['fn']]
                    if g.get('b'):
                        work.append(g)
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
    return out


def run(ctx):
    ctx.rule('a failed read, write or handshake on either socket: the session is marked as ended by that side (cleanly after an orderly close) and both sockets are closed')
    ctx.rule('received data ends in a protocol error or an exception: ended by the proxy and both closed; orderly close: both closed')
    ctx.rule('whoever marks the session as ended closes both sockets; nobody closes one alone except the failover and the broker disconnect; every shutdown is followed by its close')
    # running out of memory is out of scope
    thrown = {t for t in thrown_types(ctx, 'PacketProcessor::process') if t and t != 'std::bad_alloc'} | {'std::runtime_error'}
    ctx.sample('exceptions of the processing: ' + ', '.join(sorted(thrown)))
    cfg = C(ctx, sorted(thrown))
    E = Engine(ctx.P, cfg)
    cfg.bound_sizes(E)
    res = explore(E, public_entries(ctx, E))
    cfg.roles(res)
    ctx.count('entry_points_and_handlers', len(res))
    both = {cfg.client, cfg.broker}
    byf = {}
    for r in res:
        byf.setdefault(r[0].f, []).append(r)
    memo = {}

    def closes(st, depth=0):
        """sockets that are closed for certain, now or by the handlers the work is handed to"""
        out = {x[1] for x in st.tr if x[0] == 'close'}
        for x in st.tr:
            if x[0] == 'cont' and x[1].rsplit('::', 1)[-1] in ('dispatch', 'post', 'defer', 'async_shutdown'):
                for f in x[2]:
                    out |= later(canon(f), depth + 1)
        return out

    def later(f, depth):
        if f in memo:
            return memo[f]
        if depth > 6 or f not in byf:
            return set()
        memo[f] = set()
        r = None
        for e, outs, thr in byf[f]:
            for st, v, l in outs:
                c = closes(st, depth)
                r = c if r is None else r & c
        memo[f] = r or set()
        return memo[f]

    def bad(e, st, key, text):
        ctx.violation(key, text, '%s:%s' % (e.site[1], e.site[2]), chain(ctx, e) + trace_lines(st))

    def was(st):
        """had the session ended when the path began?"""
        r = enum_is(E, st, ('ld', cfg.disc, 0), cfg.dtypes, 'NOT_DISCONNECTED')
        return None if r is None else not r

    def kind(st):
        d = [x[1] for x in st.tr if x[0] == 'disc']
        return [next((n for n in cfg.dtypes if num(x) == cfg.dtypes[n]), pp(x)) for x in d]

    def in_state(st, name, v):
        """was the handshake in that state? (a value known to be another one is not)"""
        r = cfg.cstate_is(E, st, name, v)
        if r is None:
            for n in cfg.cstates:
                if n != name and cfg.cstate_is(E, st, n, v) is True:
                    return False
        return r

    C0 = ('ld', CST, 0)
    short = lambda e: e.name(ctx.P).split(' at ')[0]
    seen = set()
    for e, outs, thr in res:
        op = e.ts[0] if e.ts else None
        sock = e.ts[1] if len(e.ts) > 1 else None
        side = 'client' if sock == cfg.client else 'broker'
        fn = handler_fn(ctx, e)
        fnct = ctx.P.functions.get(e.f[1]) if e.f[0] == 'fn' else None
        if fnct and fnct.get('kind') == 'ctor':
            continue
        api = e.f[2].rsplit('::', 1)[-1] if e.kind == 'api' else None
        top = e
        while top.parent is not None:
            top = top.parent
        root = top.f[2].rsplit('::', 1)[-1] if top.f[0] == 'fn' else ''
        for st, v, l in outs:
            ctx.count('paths')
            k = kind(st)
            td = closes(st)
            # whoever marks it closes both
            if k and td != both:
                bad(e, st, '%s (%s): one side left open' % (short(e), op or root), 'the session is marked as ended (%s) but %s stays open' %
                    (k[-1], ' and '.join('the %s socket' % ('client' if s == cfg.client else 'broker') for s in sorted(both - td))))
            if 'NOT_DISCONNECTED' in k or any(n not in cfg.dtypes for n in k):
                bad(e, st, '%s: mark' % short(e), 'the session is not marked with one of the kinds of end')
            here = {x[1] for i, x in enumerate(st.tr) if x[0] in ('close', 'ashutdown')
                    and not any(y[0] == 'connect' and y[1] == x[1] for y in st.tr[i:])}      # closed to be connected again
            if op == 'shutdown':
                seen.add('shutdown')
                if sock not in {x[1] for x in st.tr if x[0] == 'close'}:
                    bad(e, st, 'shutdown of the %s socket' % side, 'a socket that was shut down is not closed on every path')
                continue
            if here and td != both:
                if cfg.client in here or not (op == 'connect' or root == 'backendDisconnect'):
                    bad(e, st, '%s (%s): closes one' % (short(e), op or root), 'one socket is closed and the other is not')
            # failed operations ---------------------------------------------------------------
            if op in ('read_some', 'write', 'handshake') and fn is not None and fn['p']:
                seen.add((op, side))
                failed = None
                ecs = argval(fn, 0)
                loc = {('var', fn['p'][0]['d']), ('obj', fn['p'][0]['n'])}
                for a, b in st.facts.items():
                    if a[0] == 't' and (a[1] in ecs or a[1][0] == 'hv' and a[1][2][:2] in loc):
                        if b and would_block(st, a[1]) is not True:
                            failed = True
                        elif failed is None:
                            failed = False
                if failed:
                    ctx.count('failed_paths')
                    graceful = in_state(st, 'CLIENT_CLOSE_SENT', C0) is True and sock == cfg.client
                    if td != both and graceful and any(x[0] == 'awrite' and x[1] == cfg.client for x in st.tr) \
                            and in_state(st, 'CLIENT_CLOSE_SENT', cfg.cstate(E, st)) is False:
                        # told to the client, whose socket fails the write or the read after it: that failure
                        # finds the session in another state and ends it
                        ctx.count('ends_with_the_next_failure')
                    elif td != both:
                        bad(e, st, 'failed %s on the %s socket: sockets' % (op, side), 'after a failed %s on the %s socket both sockets are not closed' % (op, side))
                    elif not k and was(st) is not True:
                        bad(e, st, 'failed %s on the %s socket: mark' % (op, side), 'after a failed %s on the %s socket the session is not marked as ended' % (op, side))
                    elif k and not graceful:
                        closed = in_state(st, 'CLOSED', C0)
                        want = 'DISCONNECTED_CLEANLY' if closed else 'DISCONNECTED_CLIENT' if sock == cfg.client else 'DISCONNECTED_SERVER'
                        if k[-1] != want:
                            bad(e, st, 'failed %s on the %s socket: kind' % (op, side), 'a failed %s on the %s socket is recorded as %s' % (op, side, k[-1]))
                        if was(st) is not False and closed is not True:
                            bad(e, st, 'failed %s on the %s socket: kind lost' % (op, side), 'the kind of end recorded before is overwritten when further operations fail')
                    elif k and graceful and k[-1] not in ('DISCONNECTED_PROXY', 'DISCONNECTED_CLIENT'):
                        bad(e, st, 'failed %s while closing: kind' % op, 'a client that leaves during an orderly close is recorded as ' + k[-1])
            # received data -------------------------------------------------------------------
            if any(x[0] == 'process' for x in st.tr):
                ctx.count('processing_paths')
                i = [j for j, x in enumerate(st.tr) if x[0] == 'process'][-1]
                threw = [x for x in st.tr[i:] if x[0] == 'threw']
                pv = [a for a in st.facts if a[0] == '==' and any(z[0] == 'sym' and z[1] == 'cstate' for z in a[1:3])]
                sv = {z for a in pv for z in a[1:3] if z[0] == 'sym'}
                err = any(in_state(st, 'ERROR', z) is True for z in sv)
                cl = any(in_state(st, 'CLOSED', z) is True for z in sv)
                if threw or err:
                    seen.add('threw' if threw else 'error')
                    if td != both or 'DISCONNECTED_PROXY' not in k:
                        bad(e, st, 'protocol error (%s)' % ('exception ' + threw[0][1].rsplit('::', 1)[-1] if threw else 'state'), 'after a protocol error the session is not ended by the proxy with both sockets closed')
                elif cl:
                    seen.add('closed')
                    if td != both:
                        bad(e, st, 'orderly close', 'after an orderly close both sockets are not closed')
                elif not any(in_state(st, 'ERROR', z) is False for z in sv) or not any(in_state(st, 'CLOSED', z) is False for z in sv):
                    bad(e, st, 'state not looked at', 'after processing received data it is not looked at whether the connection has failed or is closed')
            # synthetic data in the error state
            if op == 'timer' and not k:
                if was(st) is not True:
                    bad(e, st, 'timer', 'a client that is over its limit is not disconnected when the delay has passed')
            if op == 'timer':
                seen.add('timer')
            if api == 'disconnect':
                seen.add('disconnect')
                f = [E.decide(st, ('t', a)) for a in argval(fnct, 0)]
                if True in f and ('DISCONNECTED_PROXY' not in k or td != both):
                    bad(e, st, 'forced disconnect', 'a forced disconnect does not mark the session as ended by the proxy and close both sockets')
                elif True not in f and False in f and not (k or any(x[0] in ('handover', 'awrite') for x in st.tr)):
                    bad(e, st, 'orderly disconnect', 'an orderly disconnect does nothing')
            if api == 'backendDisconnect':
                seen.add('backendDisconnect')
                if cfg.broker not in td:
                    bad(e, st, 'broker disconnect', 'disconnecting the broker does not close its socket')
            # a synthetic message that could not be built
        for x in thr:
            st = x[0]
            if any(y[0] == 'threw' for y in st.tr):
                bad(e, st, 'exception %s leaves the processing' % x[1].rsplit('::', 1)[-1], 'an exception raised by received data is not turned into the end of the session')
    # the mark itself ---------------------------------------------------------------------------
    E2 = Engine(ctx.P, SmallCfg())
    for f in ctx.fns('SessionState::setDisconnected'):
        for st, v, l in E2.run(f)[0]:
            ctx.count('paths')
            if E2.load(st, ('fld', T, cfg.disc[2])) not in argval(f, 0):
                ctx.violation('SessionState::setDisconnected', 'the kind of end is not recorded as given', loc_of(f), trace_lines(st))
    for f in ctx.fns('Session::finished'):
        for st, v, l in E2.run(f)[0]:
            ctx.count('paths')
            at, p = E2.atom_eq(('ld', cfg.disc, 0), ('enum', 'NOT_DISCONNECTED', cfg.dtypes['NOT_DISCONNECTED']))
            d = E2.decide(st, at)
            live = None if d is None else d == p
            ret = num(v) if num(v) is not None else E2.decide(st, ('t', v))
            if live is None or ret is None or bool(ret) == live:
                ctx.violation('Session::finished', 'a session does not count as finished exactly when it is marked as ended', loc_of(f), trace_lines(st))
    need = {'shutdown', ('read_some', 'client'), ('read_some', 'broker'), ('write', 'client'), ('write', 'broker'), ('handshake', 'client'), ('handshake', 'broker'), 'disconnect'}
    ctx.require(need <= seen, 'handlers of the socket operations: ' + ', '.join(map(str, need - seen)))
    for what, text in (('error', 'protocol errors found while processing received data'), ('closed', 'an orderly close'), ('threw', 'exceptions of the processing')):
        if what not in seen:
            ctx.violation('no path for ' + what, 'nothing reacts to ' + text, loc_of(ctx.fn('Session::start')))
    ctx.done(E)

