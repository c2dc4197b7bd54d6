"""C22: every byte read from a client counts against its data rate limit and alarm; only the limit delays."""
import re
from checklib import *
from sockx import *
from sessx import FlowCfg
from tab import *
from conts import explore, Entry
import evalx

EXPLANATION = ('Path analysis of the socket adaptor\'s reads (what is charged, to what, on the plain and the encrypted stream), of when it waits instead of reading (and what its timer handlers '
               'do), evaluation of the extracted step relation of the allowance at every order type of quota, remainder and read size, and path analysis of where the session sets the rates.')
T = ('obj', 'this')
READS = ('read_some', 'async_read_some', 'async_read', 'read', 'async_receive', 'receive')


class C(SockCfg):
    def inline(self, eng, fn):
        return fn['file'].endswith('amqpprox_maybesecuresocketadaptor.h')

    def boundary(self, eng, st, c):
        if c.bqn.startswith(NS + 'DataRateLimit::') and c.node.get('k') != 'ctor':
            f = field_of(c.recvloc)
            if c.name == 'remainingQuota':
                return [(st, ('quota', f, sum(1 for e in st.tr if e[0] == 'rate' and e[1] == f)), None)]
            if c.name == 'getQuota':
                return [(st, ('maxquota', f), None)]
            return [(st.emit('rate', f, c.name, c.args), ('void',), None)]
        if c.name in ('expires_after', 'expires_from_now') and 'asio' in c.bqn:
            return st.emit('after', c.args[0])
        if c.node.get('k') == 'ctor' and c.node.get('cl') == 'std::chrono::duration' and len(c.args) == 1:
            if c.args[0][0] == 'dur':
                return [(st, c.args[0], None)]
            m = re.search(r'ratio<(\d+)(?:, (\d+))?>', c.node.get('t', ''))
            if num(c.args[0]) is not None:
                return [(st, ('dur', num(c.args[0]) * 10**9 * int(m.group(1)) // int(m.group(2) or 1) if m else num(c.args[0]) * 10**9), None)]
        if c.name in ('operator==', 'operator!=') and len(c.args) == 2 and 'error' in c.bqn:
            # a default error code is success: it equals no error value
            k = [a for a in c.args if a[0] == 'mk' and 'error_code' in str(a[1])]
            if len(k) == 2 or (len(k) == 1 and any(num(x) for x in c.args if x[0] == 'enum')):
                vals = [num(a[2][0]) if a[0] == 'mk' and a[2] else 0 if a[0] == 'mk' else num(a) for a in c.args]
                if None not in vals:
                    return [(st, TRUE if (vals[0] == vals[1]) == (c.name == 'operator==') else FALSE, None)]
        return super().boundary(eng, st, c)


def infeasible(st):
    """success taken for an error"""
    for a, v in st.facts.items():
        if a[0] == 't' and a[1][0] == 'mk' and 'error_code' in str(a[1][1]):
            n = num(a[1][2][0]) if a[1][2] else 0
            if n is not None and bool(n) != v:
                return True
    return False


def run(ctx):
    ctx.rule('read_some: what is returned is charged, once, to both the limit and the alarm')
    ctx.rule('async_read_some: a read starts only with limit allowance left (or with the very first refill); waiting instead happens only without limit allowance; after the wait both refill and the read goes on')
    ctx.rule('allowance: usage is subtracted down to zero, a lowered quota applies at once, the timer restores the quota every second, no quota means no limit')
    ctx.rule('session: the client-facing socket, and only it, gets the limit and the alarm configured for the virtual host, before a broker is chosen')
    roles = fields(ctx)
    if roles is None:
        return
    charged(ctx, roles)
    waiting(ctx, roles)
    allowance(ctx)
    session(ctx)


def fields(ctx):
    r = []
    for n in ('setReadRateLimit', 'setReadRateAlarm'):
        fs = adaptor_fns(ctx, n)
        ctx.require(fs, 'adaptor ' + n)
        for f in fs[:1]:
            E = Engine(ctx.P, C(ctx))
            got = set()
            for st, v, l in E.run(f)[0]:
                s = [(e[1], e[2], e[3]) for e in st.tr if e[0] == 'rate']
                if len(s) != 1 or s[0][1] != 'setQuota' or s[0][2][0] not in argval(f, 0):
                    ctx.violation(n, 'the rate given is not what is set: %s' % [pp(x) for x in s], loc_of(f), trace_lines(st))
                    return None
                got.add(s[0][0])
            r.append(got)
            ctx.done(E)
    if any(len(x) != 1 for x in r) or r[0] == r[1]:
        ctx.violation('rates', 'limit and alarm are not kept apart', loc_of(adaptor_fns(ctx, 'setReadRateLimit')[0]))
        return None
    return r[0].pop(), r[1].pop()


def charged(ctx, roles):
    seen = set()
    for f in adaptor_fns(ctx, 'read_some'):
        E = Engine(ctx.P, C(ctx))
        for st, v, l in E.run(f)[0]:
            io = [e for e in st.tr if e[0] == 'io' and e[1] in READS]
            if infeasible(st):
                continue
            ctx.count('read_paths')
            seen |= {e[2] for e in io}
            for r, w in zip(roles, ('limit', 'alarm')):
                u = [e for e in st.tr if e[0] == 'rate' and e[1] == r]
                tot = ('int', 0)
                for e in u:
                    if e[2] != 'recordUsage':
                        ctx.violation('read: other', 'reading changes the %s otherwise than by charging it' % w, loc_of(f), trace_lines(st))
                    elif e[3]:
                        tot = lin_add(tot, e[3][0])
                if tot != v and lin_add(tot, v, -1) != ('int', 0):
                    ctx.violation('read: %s charge' % w, 'a read on the %s stream yields %s bytes but %s are charged to the %s' % (
                        '/'.join(e[2] for e in io) or 'no', pp(v), pp(tot), w), loc_of(f), trace_lines(st))
        ctx.done(E)
    ctx.require(seen >= {'plain', 'tls'}, 'reads of both streams')
    # no other way to get data out of the stream without charging
    for f in ctx.P.functions.values():
        if not f.get('b') or f.get('lam') or not base_qn(f['qn']).startswith(AD + '::'):
            continue
        n = base_qn(f['qn'])[len(AD) + 2:]
        if n in ('read_some', 'async_read_some') or n == 'MaybeSecureSocketAdaptor' or n.startswith(('~', 'operator')):
            continue
        E = Engine(ctx.P, C(ctx))
        for st, v, l in E.run(f)[0]:
            for e in st.tr:
                if e[0] == 'io' and e[1] in READS and e[1] in ('read', 'receive', 'read_some'):
                    u = {x[1] for x in st.tr if x[0] == 'rate' and x[2] == 'recordUsage'}
                    if not set(roles) <= u:
                        ctx.violation('uncharged read in ' + n, '%s reads from the stream without charging the data rates' % n, loc_of(f), trace_lines(st))
        ctx.done(E)


def waiting(ctx, roles):
    lim, alarm = roles
    inst = adaptor_fns(ctx, 'async_read_some')
    ctx.require(inst, 'async_read_some')
    n_wait = n_read = 0
    for f in inst:
        cfg = C(ctx)
        E = Engine(ctx.P, cfg)
        res = explore(E, [Entry(('pbind', ('fn', f['id'], f['qn']), (('ptr', T), ('ph', 0), KEEP), ()), 'api', (), (f['qn'], f['file'], f['l']))])
        # the flag that says the refill timer runs: set where the timer is armed, wherever that is
        flags = None
        for e, outs, thr in res:
            for st, v, l in outs:
                refl = [x for x in st.tr if x[0] == 'rate' and x[2] == 'onTimer']
                if refl and not infeasible(st):
                    on = {x[1] for x in st.tr if x[0] == 'assign' and num(x[3]) == 1}
                    flags = on if flags is None else flags & on
        flags = flags or set()
        for e, outs, thr in res:
            api = e.kind == 'api'
            timer = 'wait' in e.kind
            name = 'async_read_some' if api else e.name(ctx.P)
            key = 'async_read_some' if api else 'timer handler' if timer else 'read handler'
            for st, v, l in outs:
                if infeasible(st):
                    continue
                ctx.count('wait_paths')
                tr = st.tr
                bad = lambda k, t: ctx.violation('%s: %s' % (key, k), t, '%s (%s)' % (loc_of(f), name), trace_lines(st))
                q = lambda i: E.decide(st, ('t', ('quota', lim, i)))
                nidx = 0
                refilled = False
                reads = [x for x in tr if x[0] == 'io' and x[1] in READS]
                waits = [x for x in tr if x[0] == 'cont' and x[1].endswith('async_wait')]
                aborted = any(a[0] == '==' and v is True and any(t[0] == 'enum' and t[1].endswith('operation_aborted') for t in subterms(a)) for a, v in st.facts.items())
                for x in tr:
                    if x[0] == 'rate' and x[2] == 'onTimer' and x[1] == lim:
                        refilled = True
                        if not timer and not any(E_false(E, st, fl) for fl in flags):
                            bad('refill', 'the allowance is refilled without the timer having expired, although the timer may be running')
                        if aborted:
                            bad('refill on cancel', 'the allowance is refilled when the timer is cancelled')
                    if x[0] == 'rate' and x[1] == lim:
                        nidx += 1
                    if x[0] == 'rate' and x[2] not in ('onTimer', 'recordUsage'):
                        bad('quota', 'waiting for data changes the configured rate')
                    if x[0] == 'rate' and x[2] == 'recordUsage':
                        bad('double charge', 'waiting for data charges the allowance; the bytes are charged when they are read')
                    if x[0] == 'io' and x[1] in READS:
                        n_read += 1
                        ok = refilled or q(nidx) is True
                        if not ok and key == 'read handler':
                            ok = False
                        if not ok:
                            bad('read without allowance', 'a read is started %s' % ('although the allowance of the limit is used up' if q(nidx) is False else 'without looking at the allowance of the limit'))
                        if aborted:
                            bad('read on cancel', 'a read is started because the timer was cancelled')
                refl = {x[1] for x in tr if x[0] == 'rate' and x[2] == 'onTimer'}
                if refl and refl != {lim, alarm}:
                    bad('half refill', 'only one of the two allowances is refilled')
                if refl:
                    if not waits and not reads:
                        bad('no next refill', 'the allowance is refilled but the timer is not armed again')
                    if timer or not reads:
                        pass
                if api:
                    if not reads and not [w for w in waits if has_handler(w)]:
                        bad('no read', 'the data is neither waited for nor is a wait for the allowance started: the connection stalls')
                    if not reads and q(nidx) is not False:
                        bad('delayed', 'the read is put off although the limit has allowance left (or without looking at it)')
                    if not reads:
                        n_wait += 1
                    if len(reads) > 1:
                        bad('two reads', 'two reads are started')
        # what happens after a wait that carries the reader's handler
        for e, outs, thr in res:
            if 'wait' not in e.kind:
                continue
            live = []
            for st, v, l in outs:
                if infeasible(st):
                    continue
                ab = any(a[0] == '==' and v is True and any(t[0] == 'enum' and t[1].endswith('operation_aborted') for t in subterms(a)) for a, v in st.facts.items())
                gone = any(('lock' in pp(a)) and v is False for a, v in st.facts.items() if a[0] == 't')
                if not ab and not gone:
                    live.append(st)
            carries = KEEP in list(subterms(e.f))
            for st in live:
                ctx.count('timer_paths')
                refl = {x[1] for x in st.tr if x[0] == 'rate' and x[2] == 'onTimer'}
                reads = [x for x in st.tr if x[0] == 'io' and x[1] in READS]
                waits = [x for x in st.tr if x[0] == 'cont' and x[1].endswith('async_wait')]
                where = '%s (%s)' % (loc_of(f), e.name(ctx.P))
                if refl != {lim, alarm}:
                    ctx.violation('timer handler: refill', 'when the timer expires the allowances are not both refilled', where, trace_lines(st))
                if carries and not reads and not [w for w in waits if has_handler(w)]:
                    ctx.violation('timer handler: lost read', 'when the timer expires the read that was put off is not started', where, trace_lines(st))
                if not waits:
                    ctx.violation('timer handler: last refill', 'when the timer expires it is not armed again, so the allowance never refills again', where, trace_lines(st))
                for x in [x for x in st.tr if x[0] == 'after']:
                    if x[1][0] == 'dur' and x[1][1] != 10**9:
                        ctx.violation('period', 'the allowance (bytes per second) is refilled every %s ms' % (x[1][1] / 10**6), where, trace_lines(st))
                if not [x for x in st.tr if x[0] == 'after']:
                    ctx.violation('period', 'the timer is armed without a new expiry', where, trace_lines(st))
            if not live:
                ctx.violation('timer handler: dead', 'nothing happens when the timer expires', loc_of(f))
        ctx.done(E)
    ctx.require(n_read and n_wait or ctx.viol, 'reads and waits of async_read_some')
    ctx.count('reads_started', n_read)
    ctx.count('reads_put_off', n_wait)


def E_false(E, st, fl):
    return any(a == ('t', ('ld', ('fld', T, fl), 0)) and v is False for a, v in st.facts.items()) or E.decide(st, ('t', ('ld', ('fld', T, fl), 0))) is False


KEEP = ('keep', "the reader's handler")


def has_handler(w):
    """does this registration carry the reader's handler?"""
    return any(KEEP in list(subterms(k)) for k in w[2])


def allowance(ctx):
    CL = 'DataRateLimit'

    class K(EffectCfg):
        linear = True
    q = rem = None
    E = Engine(ctx.P, K())
    fn = ctx.fn(CL + '::setQuota')
    for st, v, l in E.run(fn)[0]:
        w = [e for e in st.tr if e[0] == 'assign']
        k = [(k, x) for k, x in st.mem.items() if k[0] == 'fld' and k[1] == T]
        if len(k) != 1 or k[0][1] not in argval(fn, 0):
            ctx.violation('setQuota', 'the quota given is not what is stored', loc_of(fn), trace_lines(st))
            return
        q = k[0][0]
    ctx.require(q, 'quota field')
    fn = ctx.fn(CL + '::remainingQuota')
    for st, v, l in E.run(fn)[0]:
        if v[0] == 'ld' and v[1][0] == 'fld' and v[1] != q:
            rem = v[1]
    if rem is None:
        ctx.violation('remainingQuota', 'the remaining allowance is not what is reported', loc_of(fn))
        return
    fn = ctx.fn(CL + '::getQuota')
    for st, v, l in E.run(fn)[0]:
        if v != ('ld', q, 0):
            ctx.violation('getQuota', 'the quota reported is not the one set', loc_of(fn), trace_lines(st))
    fn = ctx.fn(CL + '::onTimer')
    for st, v, l in E.run(fn)[0]:
        if E.load(st, rem) != ('ld', q, 0) or E.load(st, q) != ('ld', q, 0):
            ctx.violation('onTimer', 'the timer does not restore the allowance to the quota: %s' % pp(E.load(st, rem)), loc_of(fn), trace_lines(st))
    ctx.done(E)
    for fn in ctx.fns(CL + '::' + CL):
        E = Engine(ctx.P, K())
        for st, v, l in E.run(fn)[0]:
            a, b = E.load(st, q), E.load(st, rem)
            try:
                if not fn['p']:
                    if evalx.val(a, {}) != evalx.M64 or evalx.val(b, {}) != evalx.M64:
                        ctx.violation('constructor', 'a new allowance is not unlimited', loc_of(fn), trace_lines(st))
                else:
                    o = lambda x: ('ld', ('fld', ('obj', fn['p'][0]['n']), x[2]), 0)
                    if a != o(q) or b != o(rem):
                        ctx.violation('copy', 'a copied allowance does not keep quota and remainder', loc_of(fn), trace_lines(st))
            except evalx.NoValue as x:
                ctx.violation('constructor', 'a new allowance is not unlimited: %s' % x, loc_of(fn), trace_lines(st))
    fn = ctx.fn(CL + '::recordUsage')
    E = Engine(ctx.P, K())
    outs, thr = E.run(fn)
    Q, R = ('ld', q, 0), ('ld', rem, 0)
    M = evalx.M64
    for qv in (0, 1, 2, 3, M):
        for rv in (0, 1, 2, 3, M):
            for n in (0, 1, 2, 3, 4, 1 << 40):
                env = {Q: qv, R: rv}
                for a in argval(fn, 0):
                    env[a] = n
                want = rv if qv == M else max(0, min(qv, rv) - n)
                ps = evalx.paths_at(outs, env)
                ctx.count('step_points')
                if not ps:
                    ctx.violation('recordUsage', 'usage is not recorded at quota %s, remainder %s, read of %s bytes' % (qv, rv, n), loc_of(fn))
                for st, v, l in ps:
                    try:
                        got = evalx.val(E.load(st, rem), env) & M
                        gq = evalx.val(E.load(st, q), env)
                    except evalx.NoValue as x:
                        got = gq = 'unknown (%s)' % x
                    if got != want and not (qv == M and got == M):
                        ctx.violation('recordUsage', 'with quota %s and %s left, a read of %s bytes leaves %s instead of %s' % (qv, rv, n, got, want), loc_of(fn), trace_lines(st))
                    if gq != qv:
                        ctx.violation('recordUsage quota', 'recording usage changes the quota', loc_of(fn), trace_lines(st))
    ctx.done(E)


def session(ctx):
    cfg = FlowCfg(ctx)
    E = Engine(ctx.P, cfg)
    cfg.roles(explore(E, [Entry(('fn', f['id'], f['qn']), 'api', (), ()) for f in ctx.fns('Session::start')][:1], limit=4000))

    class S(FlowCfg):
        def boundary(self, eng, st, c):
            if c.name in ('setReadRateLimit', 'setReadRateAlarm'):
                return [(st.emit('rate', self.sockname(eng, c), c.name, c.args[0]), ('void',), None)]
            if c.name == 'acquireConnection':
                st = st.emit('acquire-connection')
                r = super().boundary(eng, st, c)
                return st if r is None else r
            return super().boundary(eng, st, c)
    users = 0
    for f in ctx.P.functions.values():
        if not f.get('b') or f.get('lam') or not f['file'].startswith('libamqpprox') and '/libamqpprox/' not in f['file']:
            continue
        cs = list(calls_in(f['b']))
        direct = any(str(c.get('qn', c.get('n', ''))).endswith(('setReadRateLimit', 'setReadRateAlarm')) for c in cs)
        if not direct and not any(str(c.get('qn', '')).endswith('acquireConnection') for c in cs):
            continue
        if f.get('cl') != NS + 'Session':
            if direct:
                ctx.violation('rate set in ' + fn_key(f), 'the data rate of a socket is set outside the session', loc_of(f))
            continue
        users += 1
        c2 = S(ctx)
        c2.client, c2.broker = cfg.client, cfg.broker
        E2 = Engine(ctx.P, c2)
        ctor = base_qn(f['qn']) == NS + 'Session::Session'
        for st, v, l in E2.run(f)[0]:
            ctx.count('session_paths')
            if ctor:
                # the virtual host is not known yet
                for x in st.tr:
                    if x[0] == 'rate':
                        want = {'setReadRateLimit': 'getDefaultDataRateLimit', 'setReadRateAlarm': 'getDefaultDataRateAlarm'}[x[2]]
                        src = x[1]
                        if not (x[3][0] == 'call' and x[3][1].endswith('::' + want)):
                            ctx.violation('start: ' + x[2], 'a new session does not start with the default rate: %s' % pp(x[3])[:150], loc_of(f), trace_lines(st))
                continue
            got = {}
            for x in st.tr:
                if x[0] == 'rate':
                    what = x[2]
                    want = {'setReadRateLimit': 'getDataRateLimit', 'setReadRateAlarm': 'getDataRateAlarm'}[what]
                    if x[1] != c2.client:
                        ctx.violation(what + ': socket', 'the rate is set on a socket other than the client\'s', loc_of(f), trace_lines(st))
                    v0 = x[3]
                    ok = v0[0] == 'call' and v0[1].endswith('::' + want) and any(t[0] == 'fld' and 'irtualHost' in t[2] or 'irtualHost' in repr(t) for t in subterms(v0))
                    if not ok:
                        ctx.violation(what + ': value', 'the rate set is not the one configured for the session\'s virtual host: %s' % pp(v0)[:150], loc_of(f), trace_lines(st))
                    got[what] = 1
                if x[0] == 'acquire-connection' and len(got) != 2:
                    ctx.violation('limits before broker', 'a broker is chosen before the data rates of the virtual host apply', loc_of(f), trace_lines(st))
        ctx.done(E2)
    ctx.require(users, 'where the session sets its data rates')
