"""C14: paused virtual hosts never get new broker connections, and resume when unpaused."""
from checklib import *
from sessx import *
from tab import *
from flow07 import would_block, handler_fn
import connx

EXPLANATION = ('Path analysis of the session (public methods and every handler they register): each path that looks up or asks for a '
               'broker, or processes client data, must have seen the session not paused; the paths of pause and unpause are compared '
               'with their table; the subscriber that pauses new sessions, the VHOST command and the per-host store are analysed the same way.')
T = ('obj', 'this')


class C(FlowCfg):
    def __init__(self, ctx):
        super().__init__(ctx)
        self.sink = []

    def tag(self, eng, st, c):
        e = self.current
        if c.name in ('dispatch', 'post', 'defer') and 'asio' in c.bqn:
            if e.kind == 'api':
                return ('in', last(e.f[2]))
            if e.ts[:1] == ('in',) and not any(x[0] == 'disc' for x in st.tr):
                return e.ts
        if c.name == 'setConnectionCreationHandler':
            return ('create',)
        if c.name == 'async_read_some' and 'SocketAdaptor' in c.bqn:
            return ('read', self.sockname(eng, c))
        return ()

    def boundary(self, eng, st, c):
        r = super().boundary(eng, st, c)
        if r is not None and not eng.quiet:
            s = r if isinstance(r, St) else r[0][0] if r else None
            if s is not None and len(s.tr) > len(st.tr):
                e = s.tr[-1]
                if e[0] in ('resolve', 'acquireConnection', 'process'):
                    self.sink.append((self.current, e, self.is_paused(eng, st), c.fr.fn, c.line, st))
        return r

    def is_paused(self, eng, st):
        v = eng.load(st, self.paused)
        n = num(v)
        if n is not None:
            return bool(n)
        return eng.decide(st, ('t', v))


def last(q):
    return q.rsplit('::', 1)[-1]


def flag(E, st, loc):
    v = E.load(st, loc)
    n = num(v)
    return bool(n) if n is not None else E.decide(st, ('t', v))


def before(E, st, loc):
    """value of a flag when the path began"""
    return E.decide(st, ('t', ('ld', loc, 0)))


def changed(st, loc):
    return loc in st.mem


def run(ctx):
    ctx.rule('a broker is chosen or looked up, and client data is processed, only where the session was seen not paused')
    ctx.rule('reaching the point of connecting while paused only sets the ready mark')
    ctx.rule('unpause: not paused => no effect; paused and ready => mark cleared, not paused, one connection started, held client data taken up; paused and not ready => disconnected')
    ctx.rule('a session whose virtual host is paused when established is paused, before the connection is asked for; VHOST PAUSE/UNPAUSE record the host and visit exactly its sessions')
    cfg = C(ctx)
    E = Engine(ctx.P, cfg)
    cfg.bound_sizes(E)
    res = explore(E, public_entries(ctx, E))
    cfg.roles(res)
    ctx.count('entry_points_and_handlers', len(res))
    kinds = set()
    for cur, e, pau, fn, line, st in cfg.sink:
        if e[0] == 'process' and num(e[1]) == cfg.flow['EGRESS']:
            continue
        kinds.add(e[0])
        ctx.count('guarded_sites_visited')
        if pau is not False:
            ctx.violation('%s while paused in %s' % (e[0], fn_key(fn)), {'process': 'client data is processed', 'resolve': 'a broker is looked up'}.get(e[0], 'a broker is asked for') +
                          ' although the session may be paused', loc_of(fn, line), chain(ctx, cur) + trace_lines(st))
    ctx.require(kinds >= {'resolve', 'acquireConnection', 'process'}, 'the guarded operations of a session')

    def bad(e, st, key, text):
        ctx.violation(key, text, e.site[1] + ':' + str(e.site[2]), chain(ctx, e) + trace_lines(st))
    SIDE = ('resolve', 'acquireConnection', 'getConnection', 'auth', 'connect', 'disc', 'close', 'ashutdown', 'awrite', 'swrite', 'synth', 'process', 'aread', 'handover', 'wait')
    held = set()
    # reaching the point of connecting ---------------------------------------------------
    cr = [r for r in res if r[0].ts == ('create',)]
    ctx.require(cr, 'the handler that connects to a broker')
    for e, outs, thr in cr:
        for st, v, l in outs:
            ctx.count('connect_paths')
            ev = [x for x in st.tr if x[0] in SIDE]
            p0 = before(E, st, cfg.paused)
            if p0 is True:
                if ev or flag(E, st, cfg.ready) is not True or changed(st, cfg.paused) and flag(E, st, cfg.paused) is not True:
                    bad(e, st, 'paused when connecting', 'a session that reaches the point of connecting while paused is not just remembered')
            elif p0 is False:
                if not [x for x in ev if x[0] == 'acquireConnection']:
                    bad(e, st, 'not paused when connecting', 'a session that is not paused does not connect')
    # client data arriving while paused --------------------------------------------------
    for e, outs, thr in res:
        if e.ts != ('read', cfg.client):
            continue
        for st, v, l in outs:
            R = [x for x in st.tr if x[0] == 'read']
            if not R or R[0][5] is None:
                continue
            if E.decide(st, ('t', R[0][5])) is False and before(E, st, cfg.paused) is True and not any(x[0] == 'process' for x in st.tr):
                ctx.count('paused_read_paths')
                fs = {x[1] for x in st.tr if x[0] == 'assign' and not x[2] and num(x[3]) == 1}
                if fs:
                    held.add(frozenset(fs))
                elif not any(x[:2] == ('aread', cfg.client) for x in st.tr):
                    bad(e, st, 'client data stalls', 'client data that arrives while paused is put aside and nothing resumes it')
    # pause, unpause ---------------------------------------------------------------------
    tree = lambda n: [r for r in res if r[0].kind == 'api' and last(r[0].f[2]) == n or r[0].ts == ('in', n)]
    ctx.require(tree('pause') and tree('unpause'), 'pause and unpause')
    # flags are changed nowhere else
    for e, outs, thr in res:
        n = last(e.f[2]) if e.kind == 'api' else e.ts[1] if e.ts[:1] == ('in',) else None
        fn = ctx.P.functions.get(e.f[1]) if e.f[0] == 'fn' else None
        if fn and fn.get('kind') == 'ctor':
            continue
        for st, v, l in outs:
            ctx.count('paths')
            if changed(st, cfg.paused) and n not in ('pause', 'unpause'):
                if flag(E, st, cfg.paused) is None or flag(E, st, cfg.paused) != before(E, st, cfg.paused):
                    bad(e, st, 'paused changed in ' + e.name(ctx.P), 'whether the session is paused is changed outside of pause and unpause')
            if changed(st, cfg.ready) and n != 'unpause':
                if not (flag(E, st, cfg.ready) is True and before(E, st, cfg.paused) is True):
                    bad(e, st, 'ready mark changed in ' + e.name(ctx.P), 'the mark that the session waits for unpausing is changed where it should not be')
    work = 0
    for e, outs, thr in tree('pause'):
        for st, v, l in outs:
            ctx.count('pause_paths')
            ev = [x for x in st.tr if x[0] in SIDE]
            if [x[0] for x in ev] == ['handover']:
                continue
            if ev or changed(st, cfg.ready):
                bad(e, st, 'pause', 'pausing a session does more than marking it as paused')
            elif flag(E, st, cfg.paused) is not True:
                bad(e, st, 'pause', 'pausing a session does not leave it paused')
    for e, outs, thr in tree('unpause'):
        for st, v, l in outs:
            ctx.count('unpause_paths')
            ev = [x for x in st.tr if x[0] in SIDE]
            p0, r0 = before(E, st, cfg.paused), before(E, st, cfg.ready)
            names = [x[0] for x in ev]
            if names == ['handover'] and not changed(st, cfg.paused) and not changed(st, cfg.ready) and r0 is None:
                continue
            if p0 is not True:
                if ev or changed(st, cfg.paused) and flag(E, st, cfg.paused) is not False or changed(st, cfg.ready):
                    bad(e, st, 'unpause of a running session', 'unpausing has an effect on a session that may not be paused')
                continue
            work += 1
            if r0 is None:
                bad(e, st, 'unpause decision', 'unpausing does not look whether the session waits to connect')
            elif r0:
                if names.count('acquireConnection') != 1:
                    bad(e, st, 'resume', 'unpausing a session that waits to connect does not start its connection exactly once')
                if flag(E, st, cfg.paused) is not False or flag(E, st, cfg.ready) is not False:
                    bad(e, st, 'resume marks', 'a resumed session is still marked as paused or as waiting')
                i = names.index('acquireConnection') if 'acquireConnection' in names else 0
                if [x for x in ev[:i] if x[0] != 'handover']:
                    bad(e, st, 'resume order', 'unpausing does something else before starting the connection')
                ended = finished(cfg, E, st) or any(x[0] == 'disc' for x in st.tr)
                for fs in held:
                    w = [before(E, st, ('fld', T, f)) for f in fs]
                    took = names.count('process') == 1 or any(x[:2] == ('aread', cfg.client) for x in ev)
                    if True in w and not took and not ended:
                        bad(e, st, 'held data', 'client data that arrived while paused is not taken up when the session resumes')
                    elif all(x is None for x in w) and not took and not ended:
                        bad(e, st, 'held data', 'a session resumes without looking whether client data arrived while it was paused')
                    elif all(x is False for x in w) and 'process' in names:
                        bad(e, st, 'no held data', 'data is processed although none arrived while paused')
                if 'process' in names and not held:
                    bad(e, st, 'no held data', 'data is processed although none is known to have arrived while paused')
            else:
                d = [x for x in ev if x[0] == 'disc']
                if any(n in ('resolve', 'acquireConnection', 'getConnection', 'auth', 'connect', 'process') for n in names):
                    bad(e, st, 'unpause of an established session', 'unpausing a session that was not waiting connects again')
                elif not d or num(d[-1][1]) != cfg.dtypes['DISCONNECTED_PROXY'] or not ({'handover', 'ashutdown', 'close'} & set(names)):
                    bad(e, st, 'unpause of an established session', 'a paused session that was not waiting to connect is not disconnected by unpausing')
    ctx.require(work >= 2 or ctx.viol, 'the work of unpausing')
    ctx.done(E)
    subscriber(ctx)
    command(ctx)
    store(ctx)
    order(ctx)


def finished(cfg, E, st):
    for a, v in st.facts.items():
        if a[0] == '==' and any(x == ('ld', cfg.disc, 0) or x[0] == 'hv' and cfg.disc in x for x in a[1:3]):
            o = [x for x in a[1:3] if num(x) is not None]
            if o and num(o[0]) == cfg.dtypes['NOT_DISCONNECTED']:
                return v is False
    return False


class Mini(EffectCfg):
    """records the calls named in NAMES"""
    NAMES = {}
    linear = False

    def boundary(self, eng, st, c):
        k = self.NAMES.get(c.name)
        if k and k in c.bqn:
            s, tag = eng.site(st, c.fr, c.node)
            return [(s.emit('do', c.name, eng.addr(c.recvloc) if c.recvloc is not None else c.recv, c.args), ('call', c.bqn, (), c.args, tag), None)]
        return None


def subscriber(ctx):
    fn = ctx.fn('vhostEstablishedPauser')

    class S(ContCfg):
        def boundary(self, eng, st, c):
            n = c.name
            if n == 'subscribe':
                w = pp(eng.addr(c.recvloc)) if c.recvloc is not None else pp(c.recv)
                if not eng.quiet:
                    self.subs.append((w, c.args))
                return None
            if n in ('isPaused', 'getSession', 'pause', 'unpause', 'disconnect') and c.bqn.startswith(NS):
                s, tag = eng.site(st, c.fr, c.node)
                return [(s.emit('do', n, eng.addr(c.recvloc) if c.recvloc is not None else c.recv, c.args), ('sym', n, c.args), None)]
            return None
    cfg = S()
    cfg.subs = []
    E = Engine(ctx.P, cfg)
    res = explore(E, [Entry(('fn', fn['id'], fn['qn']), 'api', (), (fn['qn'], fn['file'], fn['l']))])
    ctx.require(cfg.subs, 'subscription of the pauser')
    if not all('connectionVhostEstablished' in w for w, a in cfg.subs):
        ctx.violation('pauser signal', 'new sessions are not paused when their virtual host becomes known', loc_of(fn))
    n = 0
    for e, outs, thr in res:
        if e.kind == 'api':
            continue
        n += 1
        h = handler_fn(ctx, e)
        a0, a1 = (argval(h, i) for i in (0, 1))
        for st, v, l in outs:
            ctx.count('pauser_paths')
            do = [x for x in st.tr if x[0] == 'do']
            isp = [x for x in do if x[1] == 'isPaused']
            if not isp or isp[0][3][0] not in a1:
                ctx.violation('pauser host', 'whether to pause a new session is not decided by its virtual host', loc_of(h), trace_lines(st))
                continue
            p = E.decide(st, ('t', ('sym', 'isPaused', isp[0][3])))
            act = [x for x in do if x[1] in ('pause', 'unpause', 'disconnect')]
            got = [x for x in do if x[1] == 'getSession']
            if p is not True:
                if p is None or act:
                    ctx.violation('pauser decision', 'a new session is paused although its virtual host is not', loc_of(h), trace_lines(st))
                continue
            if len(got) != 1 or got[0][3][0] not in a0:
                ctx.violation('pauser session', 'the session to pause is not looked up by its identifier', loc_of(h), trace_lines(st))
                continue
            g = ('sym', 'getSession', got[0][3])
            ex = E.decide(st, ('t', g))
            if ex is not False and [x[1] for x in act] != ['pause']:
                ctx.violation('pauser missing', 'a new session of a paused virtual host is not paused', loc_of(h), trace_lines(st))
            if act and ex is not True:
                ctx.violation('pauser gone', 'a session that may be gone is paused', loc_of(h), trace_lines(st))
            if act and not mentions(act[0][2], lambda t: t == g):
                ctx.violation('pauser other', 'another session than the new one is paused', loc_of(h), trace_lines(st))
    ctx.require(n, 'the handler that pauses new sessions')
    # somebody installs it and keeps the subscription
    k = 0
    for f in ctx.P.functions.values():
        if f.get('b') and '/tests/' not in f['file']:
            for c in calls_in(f['b']):
                if base_qn(c.get('qn', '')) == NS + 'vhostEstablishedPauser':
                    k += 1
    ctx.require(k >= 1, 'the installation of the pauser')
    ctx.done(E)


def command(ctx):
    fn = ctx.fn('VhostControlCommand::handleCommand')

    class V(ContCfg):
        max_states = 4000

        def boundary(self, eng, st, c):
            n = c.name
            if c.bqn in (NS + 'VhostState::setPaused', NS + 'Server::visitSessions'):
                self.visits.append(st)
                return [(st.emit('do', n, c.args, len(self.visits) - 1), ('void',), None)]
            if n in ('pause', 'unpause', 'disconnect', 'backendDisconnect') and c.bqn.startswith(NS + 'Session::'):
                return [(st.emit('do', n, eng.addr(c.recvloc) if c.recvloc is not None else c.recv, c.args), ('void',), None)]
            if n == 'getVirtualHost':
                return [(st, ('sym', 'vhost-of', eng.addr(c.recvloc) if c.recvloc is not None else c.recv), None)]
            return None
    cfg = V()
    cfg.visits = []
    E = Engine(ctx.P, cfg)
    outs, thr = E.run(fn)
    ctx.count('command_paths', len(outs))
    seen = {}
    for st, v, l in outs:
        do = [x for x in st.tr if x[0] == 'do']
        for x in do:
            if x[1] == 'setPaused':
                b = num(x[2][1])
                if b is None:
                    ctx.violation('VHOST state', 'the VHOST command records an undetermined pause state', loc_of(fn), trace_lines(st))
                    continue
                seen.setdefault(bool(b), []).append((st, x, do))
    for b, sub, act in ((True, 'PAUSE', 'pause'), (False, 'UNPAUSE', 'unpause')):
        ctx.require(seen.get(b) or ctx.viol, 'the %s subcommand' % sub)
        for st, x, do in seen.get(b, ()):
            if word(E, st, sub) is not True:
                ctx.violation('VHOST %s word' % sub, 'the pause state is changed to %s by another subcommand than %s' % (b, sub), loc_of(fn), trace_lines(st))
            if [y[1] for y in do] != ['setPaused', 'visitSessions']:
                ctx.violation('VHOST %s steps' % sub, '%s does not record the state of the virtual host and then visit the sessions' % sub, loc_of(fn), trace_lines(st))
                continue
            visitor(ctx, E, cfg, st, do, x[2][0], act, sub, fn)
    for st, v, l in outs:
        for b, sub in ((True, 'PAUSE'), (False, 'UNPAUSE')):
            if word(E, st, sub) is True and not any(x[0] == 'do' and x[1] == 'setPaused' for x in st.tr):
                # only an empty host may be refused
                if not any(a[0] == 'empty' and v2 is True for a, v2 in st.facts.items()):
                    ctx.violation('VHOST %s refused' % sub, '%s has no effect' % sub, loc_of(fn), trace_lines(st))
    ctx.done(E)


def word(E, st, w):
    for a, v in st.facts.items():
        if a[0] == '==' and ('str', w) in a[1:3]:
            return v
    return None


def visitor(ctx, E, cfg, st0, do, vhost, act, sub, fn):
    _, _, vs, at = [v for v in do if v[1] == 'visitSessions'][0]
    st0 = cfg.visits[at]
    fs = [f for a in vs for f in find_funcs(a)]
    if not fs:
        for a in vs:
            if a[0] == 'ptr':
                fs += find_funcs(E.load(st0, a[1]))
    ctx.require(len(fs) == 1, 'the visitor of ' + sub)
    f = fs[0]
    g = next((ctx.P.functions[i] for i in f[1] if i in ctx.P.functions and ctx.P.functions[i].get('b')), None)
    ctx.require(g is not None, 'the visitor of ' + sub)
    s = st0.copy()
    s.tr = ()
    outs, thr = E.run(g, this=f[3], st=s, caps=f[2])
    for st, v, l in outs:
        ctx.count('visitor_paths')
        d = [x for x in st.tr if x[0] == 'do']
        same = None
        for a, v2 in st.facts.items():
            if a[0] == '==' and any(x[0] == 'sym' and x[1] == 'vhost-of' for x in a[1:3]):
                o = [x for x in a[1:3] if not (x[0] == 'sym' and x[1] == 'vhost-of')]
                if o and (o[0] == vhost or pp(o[0]) == pp(vhost)):
                    same = v2
        if same is None:
            ctx.violation('VHOST %s visitor' % sub, '%s does not compare the virtual host of each session with the one given' % sub, loc_of(fn), trace_lines(st))
        elif same and [x[1] for x in d] != [act] or not same and d:
            ctx.violation('VHOST %s visitor' % sub, '%s does not call %s for exactly the sessions of that virtual host' % (sub, act), loc_of(fn), trace_lines(st))


def store(ctx):
    E = Engine(ctx.P, EffectCfg())
    fn = ctx.fn('VhostState::setPaused')
    where = set()
    for st, v, l in E.run(fn)[0]:
        ctx.count('store_paths')
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut') and not (e[0] == 'set' and e[4] == FALSE and len([1 for x in st.tr if x[0] == 'set' and x[1:4] == e[1:4]]) > 1)]
        ok = [e for e in ev if e[0] == 'set' and e[2] in argval(fn, 0) and e[4] in argval(fn, 1)]
        if len(ok) != 1 or [e for e in ev if e is not ok[0] and not (e[0] == 'set' and e[2] in argval(fn, 0))]:
            ctx.violation('VhostState::setPaused', 'setting the state of a virtual host does not record exactly that state for exactly that host', loc_of(fn), trace_lines(st))
        else:
            where.add((ok[0][1], ok[0][3]))
    fn = ctx.fn('VhostState::isPaused')
    if len(where) != 1:
        ctx.require(ctx.viol, 'store of paused hosts')
        return
    f, path = where.pop()
    for st, v, l in E.run(fn)[0]:
        ctx.count('store_paths')
        def rec(t):
            """is t what was recorded for the host asked for?"""
            if t[0] == 'ld':
                e = elem_of(t[1])
                return e is not None and e[0] == f and e[3] == path and (e[2] in argval(fn, 0) or e[1] == 'elem' and mentions(e[2], lambda x: x in argval(fn, 0)))
            return t[0] == 'getf' and mentions(t, lambda x: x in argval(fn, 0)) and mentions(t, lambda x: x == ('fld', T, f))
        if num(v) is not None:
            ok = any(a[0] == 't' and rec(a[1]) and x == bool(num(v)) for a, x in st.facts.items()) or \
                v == FALSE and any(a[0] in ('has', 'had') and x is False and a[2] in argval(fn, 0) for a, x in st.facts.items())
        else:
            ok = rec(v)
        if not ok:
            ctx.violation('VhostState::isPaused', 'the state of a virtual host is not read from what was recorded for it (%s)' % pp(v)[:120], loc_of(fn), trace_lines(st))
    ctx.done(E)


def order(ctx):
    """the established signal precedes the request for a connection"""
    cfg = connx.ConnCfg()
    E = Engine(ctx.P, cfg)
    m = connx.members(ctx, E)
    n = 0
    for st, fn in [(x[0], fn) for fn in ctx.fns('Connector::receive') for x in E.run(fn)[0]]:
        hs = [i for i, x in enumerate(st.tr) if x[0] == 'handler' and x[1] == m['create']]
        for i in hs:
            n += 1
            sg = [x for x in st.tr[:i] if x[0] == 'signal' and x[1] == 'connectionVhostEstablished']
            if len(sg) != 1:
                ctx.violation('established signal', 'a connection is asked for without first announcing the virtual host of the session', loc_of(fn), trace_lines(st))
    ctx.require(n, 'the request for a connection in the handshake')
    ctx.count('established_paths', n)
    ctx.done(E)
