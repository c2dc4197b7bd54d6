"""C17: broker failover tries every remaining candidate and then gives up cleanly."""
from checklib import *
from sessx import *
from tab import *
from vec import vec_call, NONE
from flow07 import handler_fn

EXPLANATION = ('Path analysis of the session\'s connection attempts: every path of the verdict, resolve and connect handlers is compared with the '
               'failover table (which endpoint or broker is turned to, and how the two counters move); the choice of the n-th candidate, the building '
               'of the candidate set of a farm and its split by datacenter are analysed per loop iteration.')
T = ('obj', 'this')
EFF = ('connect', 'resolve', 'disc', 'close', 'ashutdown', 'handover', 'synth', 'awrite', 'handshake')


class C(FlowCfg):
    def tag(self, eng, st, c):
        return (c.name,) if c.name in ('resolve', 'async_connect', 'authenticate') else ()

    def boundary(self, eng, st, c):
        r = vec_call(eng, st, c)
        return r if r is not None else super().boundary(eng, st, c)


def subs(x):
    return [t for t in subterms(x) if t and isinstance(t[0], str)]


def untrunc(v):
    while v[0] == 'trunc':
        v = v[3]
    return v


def plus(v, k):
    return lin_add(v, ('int', k))


def run(ctx):
    ctx.rule('verdict handler: the broker for the current retry count is looked up; none left => the client is disconnected, paused or ended => nothing')
    ctx.rule('resolve handler: resolved => the first endpoint is connected to and the rest kept; failed => the retry count grows by one and that broker is tried')
    ctx.rule('connect handler: failed => broker socket closed, next endpoint connected to, after the last one the next broker; ended => nothing; nobody else touches the counters')
    ctx.rule('the n-th candidate of a route is the n-th over all partitions in order, each partition rotated by its marker; none => null, and only then')
    ctx.rule('the candidates of a farm are its existing members, once each; the affinity policy keeps each once, local ones first')
    cfg = C(ctx)
    E = Engine(ctx.P, cfg)
    cfg.bound_sizes(E)
    res = explore(E, public_entries(ctx, E))
    cfg.roles(res)
    ctx.count('entry_points_and_handlers', len(res))
    rec = ctx.record('Session')
    # the members the failover works with
    Rs = {field_of(untrunc(x[1][0])) for e, outs, thr in res if e.ts == ('authenticate',) for st, v, l in outs for x in st.tr if x[0] == 'getConnection'}
    ctx.require(len(Rs) == 1 and None not in Rs, 'the retry count of a session')
    R = ('fld', T, Rs.pop())
    Vs = [f['n'] for f in rec['fields'] if 'vector' in f['t'] and 'endpoint' in f['t'].lower()]
    ctx.require(len(Vs) == 1, 'the resolved endpoints of a session')
    V = ('fld', T, Vs[0])
    R0, V0 = ('ld', R, 0), ('ld', V, 0)
    by = lambda t: [r for r in res if r[0].ts == (t,)]
    ctx.require(by('authenticate') and by('resolve') and by('async_connect'), 'verdict, resolve and connect handlers')

    def bad(e, st, key, text):
        ctx.violation(key, text, '%s:%s' % (e.site[1], e.site[2]), chain(ctx, e) + trace_lines(st))

    # which member indexes the endpoints, and from where
    I, coff = None, None
    for e, outs, thr in by('async_connect'):
        for st, v, l in outs:
            for x in st.tr:
                if x[0] == 'connect' and x[2][0] == 'ld' and x[2][1][0] == 'elem' and x[2][1][1] == V0:
                    ix = untrunc(x[2][1][2])
                    ts = [t for t in subs(ix) if t and t[0] == 'ld' and field_of(t)]
                    if len(ts) == 1:
                        k = num(lin_add(ix, ts[0], -1))
                        if k is not None and I in (None, ts[0][1]):
                            I = ts[0][1]
                            coff = k if coff is None else coff
    if I is None:
        ctx.violation('no next endpoint', 'when connecting to one endpoint of a broker fails, no further endpoint of it is tried', loc_of(ctx.fn('Session::start')))
        return
    I0 = ('ld', I, 0)

    def fin(st):
        r = enum_is(E, st, ('ld', cfg.disc, 0), cfg.dtypes, 'NOT_DISCONNECTED')
        return None if r is None else not r

    def null(st, x):
        """is the broker of a getConnection event null?"""
        for a, b in st.facts.items():
            if a[0] == 't' and a[1][0] == 'call' and a[1][1].endswith('::getConnection') and untrunc(a[1][3][0]) == untrunc(x):
                return not b
        return None

    def attempt(e, st, r, where):
        """the path ends with an attempt on candidate r"""
        ctx.count('attempts')
        ev = [x for x in st.tr if x[0] in ('connect', 'resolve', 'disc', 'ashutdown') or x[0] == 'close' and x[1] == cfg.client]
        kinds = [x[0] for x in ev]
        if E.decide(st, ('t', ('ld', cfg.paused, 0))) is True or fin(st) is True:
            if ev:
                bad(e, st, where + ': ended or paused', 'a session that has ended or is paused goes on: ' + ', '.join(kinds))
            return
        n = null(st, r)
        if n is None:
            bad(e, st, where + ': not tried', 'the next broker is not tried (no broker is looked up for the retry count that is due)')
        elif n:
            if 'resolve' in kinds or 'connect' in kinds or 'disc' not in kinds or not all(enum_is(E, st, x[1], cfg.dtypes, 'DISCONNECTED_PROXY') for x in ev if x[0] == 'disc'):
                bad(e, st, where + ': none left', 'when no broker is left the client is not disconnected by the proxy')
        else:
            if kinds != ['resolve']:
                bad(e, st, where + ': broker', 'the broker that is due is not looked up exactly once: ' + (', '.join(kinds) or 'nothing happens'))
                return
            a = [x for x in ev[0][1]]
            t = repr(a[0])
            host, ip = a[0][0] == 'call' and a[0][1].endswith('Backend::host'), a[0][0] == 'call' and a[0][1].endswith('Backend::ip')
            want = lambda x: any(y and y[0] == 'call' and y[1].endswith('::getConnection') and untrunc(y[3][0]) == untrunc(r) for y in subs(x))
            port = any(y and y[0] == 'call' and y[1].endswith('Backend::port') for y in subs(a[1]))
            if not (host or ip) or not want(a[0]) or not want(a[1]) or not port:
                bad(e, st, where + ': wrong broker', 'what is looked up is not the address and port of the broker that is due')
                return
            for f, b in st.facts.items():
                if f[0] == 't' and f[1][0] == 'call' and f[1][1].endswith('dnsBasedEntry') and want(f[1]) and b != host:
                    bad(e, st, where + ': host or address', 'a broker is looked up by the wrong one of host name and address')
            if fin(st) is not False:
                bad(e, st, where + ': ended', 'a broker is looked up without having seen that the session has not ended')
        if untrunc(E.load(st, R)) != untrunc(r):
            bad(e, st, where + ': retry count', 'the retry count does not stay with the broker that is tried')

    def connects(e, st, ep, where):
        cs = [x for x in st.tr if x[0] == 'connect']
        if [x for x in st.tr if x[0] in ('resolve', 'disc')] or len(cs) != 1 or cs[0][1] != cfg.broker:
            bad(e, st, where + ': connect', 'the endpoint that is due is not connected to, exactly once and on the broker socket')
            return False
        if cs[0][2] not in ep:
            bad(e, st, where + ': endpoint', 'the endpoint connected to is not the one that is due: ' + pp(cs[0][2]))
            return False
        if fin(st) is not False:
            bad(e, st, where + ': ended', 'an endpoint is connected to without having seen that the session has not ended')
        if untrunc(E.load(st, R)) != R0:
            bad(e, st, where + ': retry count', 'the retry count changes although the broker is still being tried')
        return True

    # verdict ---------------------------------------------------------------------------------
    for e, outs, thr in by('authenticate'):
        for st, v, l in outs:
            ctx.count('verdict_paths')
            if any(x[0] == 'synth' for x in st.tr) or any(x[0] == 'disc' for x in st.tr) and not any(x[0] == 'getConnection' for x in st.tr):
                if any(x[0] in ('resolve', 'connect') for x in st.tr):
                    bad(e, st, 'verdict: refused', 'a client that is refused is connected nevertheless')
                continue
            attempt(e, st, R0, 'verdict')
    # resolved --------------------------------------------------------------------------------
    preclosed = True
    for e, outs, thr in by('resolve'):
        fn = handler_fn(ctx, e)
        ctx.require(fn is not None and len(fn['p']) >= 2, 'parameters of the resolve handler')
        ecs, eps = argval(fn, 0), argval(fn, 1)

        def err(st):
            r = [E.decide(st, ('t', x)) for x in ecs]
            return True if True in r else False if False in r else None

        def none(st):
            for x in eps:
                for a in (('empty', x), ('t', ('isempty', x))):
                    r = E.decide(st, a)
                    if r is not None:
                        return r
            return None
        for st, v, l in outs:
            ctx.count('resolve_paths')
            if fin(st) is True:
                if [x for x in st.tr if x[0] in EFF and x[0] != 'handover']:
                    bad(e, st, 'resolved: ended', 'a session that has ended goes on after a name was resolved')
                continue
            good = err(st) is False and none(st) is False
            if err(st) is True or none(st) is True:
                attempt(e, st, plus(R0, 1), 'failed to resolve')
                continue
            if not good:
                bad(e, st, 'resolved: unchecked', 'what happens after resolving does not depend on whether that succeeded and gave an endpoint')
                continue
            nn = null(st, R0)
            if nn is True:
                continue   # the broker that was looked up still exists: the same retry count gives the same one
            first = [('ld', ('elem', x, ('int', 0)), 0) for x in eps]
            if not connects(e, st, first, 'resolved'):
                continue
            i, c = E.load(st, V), num(untrunc(E.load(st, I)))
            dns = None
            for f, b in st.facts.items():
                if f[0] == 't' and f[1][0] == 'call' and f[1][1].endswith('dnsBasedEntry'):
                    dns = b
            if i not in eps and not (dns is False and i[0] == 'list' and len(i[2]) == 1 and i[2][0] in first):
                bad(e, st, 'resolved: endpoints', 'the endpoints kept for failover are not the resolved ones: ' + pp(i))
            if c is None or c + coff != 1:
                bad(e, st, 'resolved: index', 'after connecting to the first endpoint, the next one to try is not the second')
            if not any(x[0] == 'close' and x[1] == cfg.broker for x in st.tr):
                preclosed = False
    # connected -------------------------------------------------------------------------------
    for e, outs, thr in by('async_connect'):
        fn = handler_fn(ctx, e)
        ctx.require(fn is not None and fn['p'], 'parameters of the connect handler')
        ecs = argval(fn, 0)
        loc = {('var', fn['p'][0]['d']), ('obj', fn['p'][0]['n'])}
        for st, v, l in outs:
            ctx.count('connect_paths')
            failed, clean = None, False
            for a, b in st.facts.items():
                if a[0] != 't':
                    continue
                x = a[1]
                if x in ecs:
                    clean = clean or not b
                if x in ecs or x[0] == 'hv' and x[2][:2] in loc:
                    failed = True if b else failed
            moved = [k for k in (R, I, V) if E.load(st, k) != ('ld', k, 0)]
            ev = [x[0] for x in st.tr if x[0] in ('connect', 'resolve', 'disc')]
            if not failed:
                if not clean:
                    bad(e, st, 'connected: unchecked', 'what happens after connecting does not depend on whether that succeeded')
                elif moved or ev:
                    bad(e, st, 'connected: goes on', 'a connection that succeeded is followed by a further attempt, or changes the failover state')
                elif not any(x[0] in ('handshake', 'awrite') for x in st.tr):
                    bad(e, st, 'connected: nothing', 'nothing is done with a connection that succeeded')
                continue
            if any(x[0] in ('handshake', 'awrite', 'synth') for x in st.tr):
                bad(e, st, 'failed to connect: used', 'a connection that failed is used')
            if fin(st) is True:
                if ev:
                    bad(e, st, 'failed to connect: ended', 'a session that has ended tries again')
                continue
            k = [i for i, x in enumerate(st.tr) if x[0] == 'close' and x[1] == cfg.broker]
            c = [i for i, x in enumerate(st.tr) if x[0] == 'connect']
            if c and not (k and k[0] < c[0]) or not c and not k and not preclosed and 'disc' not in ev \
                    and E.decide(st, ('t', ('ld', cfg.paused, 0))) is not True and fin(st) is not True:
                bad(e, st, 'failed to connect: not closed', 'the broker socket is not closed before the next attempt uses it')
            more = left(E, st, V0, plus(I0, coff))
            if more is None:
                bad(e, st, 'failed to connect: endpoints left', 'whether another endpoint is left is not looked at')
            elif more:
                if connects(e, st, [('ld', ('elem', V0, plus(I0, coff)), 0)], 'failed to connect'):
                    if untrunc(E.load(st, I)) != plus(I0, 1):
                        bad(e, st, 'failed to connect: index', 'the position in the endpoints does not move on by one')
                    if E.load(st, V) != V0:
                        bad(e, st, 'failed to connect: kept', 'the endpoints of the broker change while they are tried')
            else:
                attempt(e, st, plus(R0, 1), 'endpoints exhausted')
    # nobody else -----------------------------------------------------------------------------
    for e, outs, thr in res:
        if e.ts:
            continue
        fn = ctx.P.functions.get(e.f[1]) if e.f[0] == 'fn' else None
        ct = fn and fn.get('kind') == 'ctor'
        for st, v, l in outs:
            ctx.count('other_paths')
            if any(x[0] in ('resolve', 'connect') for x in st.tr):
                bad(e, st, 'attempt in ' + e.name(ctx.P), 'a broker is tried outside of the failover')
            if ct:
                if num(E.load(st, R)) != 0:
                    bad(e, st, 'initial retry count', 'a session does not begin with its first broker')
            elif untrunc(E.load(st, R)) != R0:
                bad(e, st, 'retry count changed in ' + e.name(ctx.P).split(' at ')[0], 'the retry count changes outside of the failover')
            elif E.load(st, I) != I0 or E.load(st, V) != V0:
                bad(e, st, 'endpoints changed in ' + e.name(ctx.P).split(' at ')[0], 'the remaining endpoints change outside of the failover')
    ctx.done(E)
    candidates(ctx)
    members(ctx)
    affinity(ctx)


def left(E, st, v, i):
    """are there endpoints left at position i?"""
    s = ('size', v)
    for a in (('<', i, s),):
        r = E.decide(st, a)
        if r is not None:
            return r
    if E.decide(st, ('empty', v)) is True:
        return False
    at = E.atom_eq(i, s)
    if at[0] not in (True, False):
        d = E.decide(st, at[0])
        if d is not None and d == at[1]:
            return False
    return None


# ---------------------------------------------------------------------------------------------
class Iter(EffectCfg):
    linear = True
    loop_iters = 1
    max_states = 20000

    def __init__(self):
        self.its, self.entered = [], {}

    def boundary(self, eng, st, c):
        return vec_call(eng, st, c)

    def loop_enter(self, eng, h, head, changed, node):
        self.entered[id(head)] = (h, head)
        self.h0 = h

    def iter_end(self, eng, head, ends, node):
        for e in ends:
            self.its.append((self.entered.get(id(head), (None, head))[0], head, e, node))


def candidates(ctx):
    def vio(fn, key, text, st=None):
        ctx.violation(key, text, loc_of(fn), trace_lines(st) if st is not None else None)
    E = Engine(ctx.P, Iter())
    fn = ctx.fn('ConnectionManager::getConnection')
    outs, thr = E.run(fn)
    n = ('arg', fn['p'][0]['n'])
    psel = pset = None
    for st, v, l in outs:
        if v[0] == 'call' and v[1].endswith('::select'):
            psel = v[2]
    ctx.require(psel is not None, 'the selector of a route')
    selv = next((t for t in subs(psel) if t[0] == 'ld' and t[1][0] == 'fld' and field_of(t)), None)
    part = ctx_field(ctx, 'BackendSet::partitions')
    for st, v, l in outs:
        ctx.count('candidate_paths')
        has = E.decide(st, ('t', selv))
        first = E.decide(st, ('t', n))
        if has is True:
            if not (v[0] == 'call' and v[1].endswith('::select') and untrunc(v[3][2]) == n and field_of(v[3][0]) and 'vector' in ftype(ctx, 'ConnectionManager', field_of(v[3][1]))):
                vio(fn, 'getConnection: selector', 'the candidate is not the one the selector of the farm names for this retry count', st)
        elif has is False:
            if v == NULL:
                empty = [a for a, b in st.facts.items() if a[0] == 'empty' and b is True and part in repr(a)]
                if first is not True and not empty:
                    vio(fn, 'getConnection: direct', 'a broker mapped directly is not tried', st)
            else:
                e = v[1] if v[0] == 'ld' else v
                if first is not False:
                    vio(fn, 'getConnection: direct again', 'a broker mapped directly is tried again', st)
                ok = e[0] == 'elem' and num(e[2]) == 0 and e[1][0] == 'ld' and e[1][1][0] == 'elem' and num(e[1][1][2]) == 0 and part in repr(e[1][1][1])
                if not ok:
                    vio(fn, 'getConnection: direct other', 'the candidate of a direct mapping is not its broker', st)
        else:
            vio(fn, 'getConnection', 'whether the route has a selector is not looked at', st)
    snap = set()
    for c in ctx.P.functions.values():
        if c.get('kind') == 'ctor' and c.get('cl') == NS + 'ConnectionManager' and c.get('b') and len(c['p']) == 2:
            for st, v, l in E.run(c)[0]:
                snap |= {(k[2], v2) for k, v2 in st.mem.items() if k[0] == 'fld' and k[1] == T and 'arker' in repr(v2)}
    ctx.require(snap, 'the snapshot of the markers')
    rec = ctx.record('ConnectionManager')
    ctx.done(E)
    # the n-th candidate of the set
    sel = [f for f in ctx.P.functions.values() if f.get('b') and f['qn'].endswith('Selector::select') and f.get('cl') != NS + 'BackendSelector']
    ctx.require(sel, 'implementations of the selector')
    for fn in sel:
        cfg = Iter()
        E = Engine(ctx.P, cfg)
        outs, thr = E.run(fn)
        ms, cnt = argval(fn, 1), argval(fn, 2)
        key = fn_key(fn)
        pos = {}

        def partition(x):
            """the index of the partition a term denotes, or None"""
            if x[0] == 'ld' and x[1][0] == 'elem' and x[1][1][0] == 'ld' and x[1][1][1][0] == 'fld' and x[1][1][1][2] == part:
                return x[1][2]
            return None
        for h, head, st, node in cfg.its:
            ctx.count('selector_iterations')
            step = {k: (head.mem[k], st.mem.get(k)) for k in head.mem if head.mem[k][0] == 'lv' and k in st.mem}
            idx = [k for k, (a, b) in step.items() if untrunc(b) == plus(a, 1) and h is not None and num(h.mem.get(k, NULL)) == 0]
            ok = False
            for k, (a, b) in step.items():
                if k in idx or h is None or untrunc(h.mem.get(k, NULL)) not in cnt:
                    continue
                for i in idx:
                    for t in subs(untrunc(b)):
                        if t[0] == 'size' and partition(t[1]) == step[i][0] and untrunc(b) == lin_add(a, t, -1) and E.decide(st, ('<', a, t)) is False:
                            ok = True
            if not ok:
                vio(fn, key + ': step', 'moving on to the next partition does not leave exactly the brokers of this one behind', st)
        for st, v, l in outs:
            ctx.count('selector_paths')
            if v == NULL:
                odd = [a for a in st.facts if not (a[0] == 'empty' and a[1] in ms or a[0] == '<' and untrunc(a[1])[0] == 'lv' and a[2][0] == 'size' and a[2][1] in ms or
                                                   a[0] == '<' and untrunc(a[1])[0] == 'lv' and a[2][0] == 'size' and part in repr(a[2]) and partition(a[2][1]) is None)]
                odd = [a for a in odd if 'Exception' not in repr(a)]
                if odd:
                    vio(fn, key + ': gives up', 'no candidate is given although not all partitions have been counted: ' + ', '.join(ppatom(a, st.facts[a]) for a in odd)[:300], st)
                continue
            e = v[1] if v[0] == 'ld' else v
            i = partition(e[1]) if e[0] == 'elem' else None
            if i is None:
                vio(fn, key + ': result', 'the candidate is not an element of a partition', st)
                continue
            p = untrunc(e[2])
            ok = False
            if p[0] == 'op' and p[1] == '%' and p[3] == ('size', e[1]):
                for r in [t for t in subs(p[2]) if t[0] == 'lv']:
                    m = lin_add(untrunc(p[2]), r, -1)
                    if m[0] == 'ld' and m[1][0] == 'elem' and m[1][1] in ms and (m[1][2] == i or m[1][2][0] == 'rf') and E.decide(st, ('<', r, p[3])) is True and i[0] == 'lv' and r != i:
                        ok = True
            if not ok:
                vio(fn, key + ': position', 'the candidate is not the one at (marker + remaining count) modulo the size of its partition', st)
        ctx.require(cfg.its, 'the loop of ' + key)
        ctx.done(E)


def ctx_field(ctx, q):
    E = Engine(ctx.P, Cfg())
    s = {field_of(v) for f in ctx.fns(q) for st, v, l in E.run(f)[0]}
    ctx.require(len(s) == 1 and None not in s, q)
    return s.pop()


def ftype(ctx, cls, f):
    for x in ctx.record(cls)['fields']:
        if x['n'] == f:
            return x['t']
    return ''


class Named(Iter):
    def boundary(self, eng, st, c):
        if c.bqn == NS + 'BackendStore::lookup':
            return [(st, ('call', c.bqn, c.recv, c.args), None)]
        return super().boundary(eng, st, c)


def members(ctx):
    """the candidates of a farm are its existing members"""
    part = ctx_field(ctx, 'BackendSet::partitions')
    fns = [f for f in ctx.P.functions.values() if f.get('cl') == NS + 'Farm' and f.get('b') and not f.get('lam') and
           any(c.get('bqn', c.get('qn', '')).endswith('BackendStore::lookup') or 'BackendStore::lookup' in repr(c.get('f', '')) for c in calls_in(f['b']))]
    fns = fns or ctx.fns('Farm::doRepartitionWhileLocked')
    ctx.require(fns, 'where the candidates of a farm are collected')
    for fn in fns:
        cfg = Named()
        E = Engine(ctx.P, cfg)
        outs, thr = E.run(fn)
        mine = []
        for h, head, st, node in cfg.its:
            look = [(a, b) for a, b in st.facts.items() if a[0] == 't' and a[1][0] == 'call' and a[1][1] == NS + 'BackendStore::lookup']
            app = {k: st.mem[k] for k in head.mem if st.mem.get(k) is not None and st.mem[k] != head.mem[k] and st.mem[k][0] in ('app', 'list')}
            if not look and not app:
                continue
            ctx.count('member_iterations')
            mine.append(st)
            if len(look) != 1 or not any(t[0] == 'ld' and t[1][0] == 'elem' and field_of(t[1][1]) for t in subs(look[0][0][1][3][0])):
                ctx.violation(fn_key(fn) + ': lookup', 'a member of a farm becomes a candidate without being looked up', loc_of(fn), trace_lines(st))
                continue
            a, b = look[0]
            vals = [v for v in app.values()]
            if b is True and not (len(vals) == 1 and vals[0] == ('app', head.mem[[k for k in app][0]], a[1])) or b is False and vals:
                ctx.violation(fn_key(fn) + ': member', 'an existing member of a farm does not become a candidate exactly once, or one that does not exist does', loc_of(fn), trace_lines(st))
        ctx.require(mine, 'the loop over the members of a farm')
        pol = [x for x in cfg.its if any(v[0] == 'call' and v[1].endswith('::partition') for v in x[2].mem.values())]
        for h, head, st, node in pol:
            ctx.count('policy_iterations')
            ok = False
            for k in head.mem:
                a, b = head.mem[k], st.mem.get(k)
                if a[0] == 'lv' and b and b[0] == 'call' and b[1].endswith('::partition') and a in b[3]:
                    ok = True
            if not ok:
                ctx.violation(fn_key(fn) + ': policies', 'a partition policy is not applied to what the ones before it produced', loc_of(fn), trace_lines(st))
        ctx.done(E)


def affinity(ctx):
    fns = [f for f in ctx.P.functions.values() if f.get('b') and f['qn'].endswith('Policy::partition') and f.get('cl') != NS + 'PartitionPolicy']
    ctx.require(fns, 'partition policies')
    part = ctx_field(ctx, 'BackendSet::partitions')
    for fn in fns:
        cfg = Iter()
        E = Engine(ctx.P, cfg)
        outs, thr = E.run(fn)
        key = fn_key(fn)
        near, far = set(), set()

        def vio(k, text, st=None):
            ctx.violation(key + ': ' + k, text, loc_of(fn), trace_lines(st) if st is not None else None)
        inner = []
        for h, head, st, node in cfg.its:
            app = {k: st.mem[k] for k in st.mem if st.mem[k] != head.mem.get(k) and st.mem[k][0] in ('app', 'list') and k[0] != 'tmp'}
            item = [v[2] if v[0] == 'app' else v[2][-1] for v in app.values()]
            local = None
            for a, b in st.facts.items():
                if a[0] == '==' and 'atacenter' in repr(a):
                    local = b
            if local is None:
                continue
            inner.append(st)
            ctx.count('affinity_iterations')
            if len(app) != 1 or item[0][0] != 'ld' or item[0][1][0] != 'elem':
                vio('kept', 'a broker is not kept in exactly one of the partitions', st)
                continue
            (near if local else far).add(list(app)[0])
        if not inner:
            vio('datacenter', 'brokers are not divided by whether they are in the local datacenter')
            continue
        if near & far:
            vio('divided', 'brokers in and outside the local datacenter end up in the same partition')
            continue
        sets = near | far
        outer = 0
        for h, head, st, node in cfg.its:
            if not all(k in st.mem and k not in head.mem for k in sets):
                continue
            outer += 1
            ctx.count('affinity_outer')
            app = []
            for k in st.mem:
                v, o = st.mem[k], head.mem.get(k)
                if o is not None and v != o:
                    while v != o and v[0] == 'app':
                        app.insert(0, v[2])
                        v = v[1]
                    if v != o and v[0] != 'list':
                        vio('replaced', 'the partitions collected so far are lost', st)
            full = {}
            for k in sets:
                x = [v for v in app if v[0] == 'lv' and v[2] == k]
                e = next((b for a, b in st.facts.items() if a[0] == 'empty' and a[1][0] == 'lv' and a[1][2] == k), None)
                if e is not True and len(x) != 1 or len(x) > 1:
                    vio('partition', 'a non-empty partition is not kept exactly once', st)
            ks = [v[2] for v in app if v[0] == 'lv']
            if any(a in far and b in near for i, a in enumerate(ks) for b in ks[i + 1:]):
                vio('order', 'brokers of other datacenters are tried before the local ones', st)
        if not outer:
            vio('outer', 'the partitions are not divided one by one')
        ctx.done(E)
