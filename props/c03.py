"""C03: no broker connection without an explicit ALLOW verdict."""
from checklib import *
from sessx import *
from tab import *

EXPLANATION = ('Typestate analysis over the session\'s public methods and every completion handler they can register '
               '(handlers are analysed as entry points that inherit only the typestate): every call that resolves or connects '
               'towards a broker must be dominated by a verdict handler of the authentication step with result == ALLOW.')
SINK = ('resolve', 'async_resolve', 'async_connect', 'connect')


class C(SessCfg):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        self.sinks = []

    def allowed(self, eng, st):
        if st.ts == 'allowed':
            return True
        return self.verdict(eng, st) is True

    def verdict(self, eng, st):
        """True/False/None: is the verdict of the running handler ALLOW?"""
        if self.current is None or not self.current.kind.endswith('::authenticate'):
            return None
        r = None
        for a, v in st.facts.items():
            for t in subterms(a):
                if t and t[0] == 'call' and t[1].endswith('AuthResponse::result') and self.is_param(t[2]):
                    at, p = eng.atom_eq(('enum', 'ALLOW', ALLOW), t)
                    d = eng.decide(st, at)
                    if d is not None:
                        return d == p
                    r = None
        return r

    def is_param(self, t):
        return t[0] in ('ld', 'arg') and (t[0] == 'arg' or t[1][0] == 'obj')

    def carry(self, eng, st, kind):
        if kind.endswith('::authenticate') or kind.endswith('setConnectionCreationHandler'):
            return ()
        return 'allowed' if self.allowed(eng, st) else st.ts

    def boundary(self, eng, st, c):
        n = c.name
        if n in SINK and ('DNSResolver' in c.bqn or 'Socket' in c.bqn or 'socket' in c.bqn or 'asio' in c.bqn or 'resolver' in c.bqn):
            if not eng.quiet:
                self.sinks.append((self.current, self.allowed(eng, st), n, c.fr.fn, c.line, st))
            return st.emit('sink', n)
        if n == 'setDisconnected':
            return st.emit('ended', c.args[0])
        if n in ('dispatch', 'post', 'async_shutdown', 'close'):
            return st.emit('teardown', n)
        if n == 'authenticate':
            if not eng.quiet:
                self.ctx.count('authentication_requests')
                self.check_request(eng, st, c)
            return st.emit('authenticate')
        if n.startswith('set_') and ('authproto' in c.bqn):
            return st.emit('req', n, c.args[0] if c.args else ())
        return None

    def check_request(self, eng, st, c):
        req = {}
        for e in st.tr:
            if e[0] == 'req':
                req[e[1]] = e[2]
        ctx = self.ctx

        def need(f, ok, what):
            ctx.count('request_fields')
            v = req.get(f)
            if v is None or not ok(v):
                ctx.violation('auth request ' + f, 'the authentication request does not carry %s (%s)' % (what, pp(v)[:120] if v else 'unset'),
                              loc_of(c.fr.fn, c.line), trace_lines(st))
        vh = ('fld', ('obj', 'this'), 'd_sessionState')
        is_vhost = lambda v: v[0] == 'ld' and v[1] == self.vhost
        need('set_vhostname', is_vhost, 'the client\'s virtual host')
        need('set_clienthostname', lambda v: mentions(v, lambda t: t == ('fld', self.vhost[1], self.ingress)), 'the client\'s address')
        cred = lambda part: (lambda v: mentions(v, lambda t: len(t) > 1 and t[0] == 'call' and t[1].endswith('getAuthMechanismCredentials')) and
                             v[0] in ('getf', 'ld', 'fld') and (v[2] == part if v[0] == 'getf' else part in repr(v)))
        need('set_authmechanism', cred('first'), 'the client\'s mechanism')
        need('set_credentials', cred('second'), 'the client\'s credentials')


ALLOW = 0


def run(ctx):
    global ALLOW
    ctx.rule('resolve/connect call reachable => handler chain passed a verdict handler with result == ALLOW')
    ctx.rule('verdict handler without ALLOW => session marked ended and torn down, no resolve/connect')
    ctx.rule('the request given to authenticate() carries the session\'s virtual host, client address, mechanism and credentials')
    ctx.assume('asio, the resolver and the authentication interface invoke handlers later, not from inside the registering call')
    en = [v for k, v in ctx.P.enums.items() if k.endswith('AuthResponse_AuthResult') or 'AuthResult' in k]
    cfg = C(ctx)
    E = Engine(ctx.P, cfg)
    # names of the members read by the accessors
    vf = {field_of(v) for st, v, l in E.run(ctx.fn('SessionState::getVirtualHost'))[0]}
    ing = {field_of(recd(v).get('second', ())) for st, v, l in E.run(ctx.fn('SessionState::getIngress'))[0]}
    ctx.require(len(vf) == 1 and len(ing) == 1, 'session state accessors')
    sess = [f['n'] for f in ctx.record('Session')['fields'] if f['t'].endswith('SessionState')]
    ctx.require(len(sess) == 1, 'session state member')
    cfg.vhost = ('fld', ('fld', ('obj', 'this'), sess[0]), vf.pop())
    cfg.ingress = ing.pop()
    res = explore(E, public_entries(ctx, E))
    ctx.count('entry_points_and_handlers', len(res))
    auth = [r for r in res if r[0].kind.endswith('::authenticate')]
    ctx.require(auth, 'a verdict handler registered with authenticate()')
    ctx.require(cfg.sinks, 'a call that connects to a broker')
    for cur, ok, n, fn, line, st in cfg.sinks:
        ctx.count('connect_sites_visited')
        if not ok:
            ctx.violation('%s in %s without ALLOW' % (n, fn_key(fn)), '%s() is reachable from %s without an ALLOW verdict' % (n, cur.name(ctx.P)),
                          loc_of(fn, line), chain(ctx, cur) + trace_lines(st))
    for e, outs, thr in auth:
        cfg.current = e
        for st, v, l in outs:
            ctx.count('verdict_paths')
            ver = cfg.verdict(E, st)
            if ver is True:
                continue
            ended = any(x[0] == 'ended' and not pp(x[1]).endswith('NOT_DISCONNECTED') for x in st.tr) and any(x[0] == 'teardown' for x in st.tr)
            if not ended:
                ctx.violation('client kept without ALLOW', 'a client without an ALLOW verdict is not disconnected', e.site[1] + ':' + str(e.site[2]), trace_lines(st))
    # every place in the repository that can connect a session socket
    walked = E.analysed
    for f in ctx.P.functions.values():
        if not f.get('b'):
            continue
        for c in calls_in(f['b']):
            q = base_qn(c.get('qn', ''))
            if q.endswith('::async_connect') and 'MaybeSecure' in q and f['id'] not in walked and 'MaybeSecureSocketAdaptor' not in f['qn']:
                ctx.violation('connect outside the session: ' + fn_key(f), 'a broker connection is started outside the analysed session code', loc_of(f, c.get('l')))
            if q.endswith('::async_connect'):
                ctx.count('connect_call_sites')
    ctx.sample([r[0].name(ctx.P) for r in res][:30])
    ctx.done(E)
