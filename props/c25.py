"""C25: sessions are registered once, removed once, and reported when they end."""
from checklib import *
from conts import *
from tab import *
from vec import vec_call

EXPLANATION = ('Path analysis of the accept handler and the session table of the server, and of the cleanup run over two generic sessions with each combination of having ended or not: '
               'the order of registration and start, and of counting, reporting, taking back and removing.')
SV, SE, SC, SS = NS + 'Server', NS + 'Session', NS + 'StatCollector', NS + 'SessionState'
T = ('obj', 'this')


class Clean(Cfg):
    unroll = 2
    distinct = True
    loop_events = True
    linear = True

    def inline(self, eng, fn):
        return True

    def on_call(self, eng, st, c):
        if c.node.get('o') is None and not c.bqn.startswith('std::vector'):
            return None
        if c.bqn.startswith(SC + '::'):
            s = st.emit(c.name, c.locs[0] if c.locs else None)
            return [(s, ('counted', c.locs[0]) if c.name == 'collect' else ('void',), None)]
        if c.bqn == SE + '::finished':
            return [(st, ('reread', c.recvloc), None)]
        if c.bqn == SS + '::getDisconnectType':
            return [(st, ('reread', c.recvloc), None)]
        if c.bqn in (SV + '::removeSession', SV + '::clearDefunctSessions'):
            return [(st.emit(c.name, c.args[0] if c.args else None), ('void',), None)]
        if 'EventSourceSignal' in c.bqn and c.name == 'emit':
            return [(st.emit('report', c.node.get('l')), ('void',), None)]
        return vec_call(eng, st, c)


def cleanup(ctx):
    f = ctx.fn('SessionCleanup::cleanup')
    cfg = Clean()
    E = Engine(ctx.P, cfg)
    outs, thr = E.run(f)
    full = 0
    for st, v, l in outs:
        ctx.count('cleanup_paths')

        def bad(k, text):
            ctx.violation('cleanup: ' + k, text, loc_of(f), trace_lines(st)[:14])
        sess = [e[1] for e in st.tr if e[0] == 'iter' and mentions(e[1], lambda t: isinstance(t, tuple) and t[:1] == ('fld',) and t[1] == ('deref', ('arg', f['p'][1]['n'])))]
        state = {}
        for e in sess:
            state[state_of(ctx, e)] = e
        ev = [e for e in st.tr if e[0] in ('collect', 'deletedSession', 'removeSession', 'clearDefunctSessions', 'report', 'reset')]
        at = lambda k, x=None: [i for i, e in enumerate(ev) if e[0] == k and (x is None or e[1] == x)]
        rep, rst = at('report'), at('reset')
        if len(rep) != 1:
            bad('report', 'the statistics are announced %d times in one run' % len(rep))
            continue
        if len(rst) != 1 or rst[0] != len(ev) - 1:
            bad('reset', 'the statistics are not reset exactly once, at the end of the run')
        if not truth(v):
            bad('stops', 'the cleanup does not ask to be run again')
        for e in ev:
            if e[0] in ('collect', 'deletedSession') and e[1] not in state or e[0] == 'removeSession' and e[1] not in [id_of(ctx, x) for x in state]:
                bad('stranger', '%s is called for something that is not one of the sessions of the server' % e[0])
        gone = 0
        for x, el in state.items():
            full += 1
            c, d, r = at('collect', x), at('deletedSession', x), at('removeSession', id_of(ctx, x))
            ctx.count('sessions_followed')
            if len(c) != 1 or c[0] > rep[0]:
                bad('counted', 'a session is not counted exactly once before the statistics are announced')
            end = st.facts.get(('t', ('counted', x)))
            end = None if end is None else not end
            if end is None:
                if d or r:
                    other = any(mentions(a, lambda t: isinstance(t, tuple) and t[:1] == ('reread',)) for a in st.facts)
                    bad('judged', 'a session is removed although %s' % ('its end is judged by another reading than the one that was counted: it may have been counted as running and never be counted as ended' if other else 'it may still be running'))
                else:
                    bad('judged', 'a session is kept without regard to whether it ended')
                continue
            if end:
                if d or r:
                    bad('running', 'a session that was counted as running is removed')
                continue
            gone += 1
            if len(d) != 1 or len(r) != 1:
                bad('ended', 'a session that ended is taken out of the totals %d times and removed %d times' % (len(d), len(r)))
            elif d[0] < rep[0]:
                bad('early', 'a session that ended is taken out of the totals before they are announced')
        if gone and (len(at('clearDefunctSessions')) < 1 or at('clearDefunctSessions')[-1] < max(at('removeSession'))):
            bad('released', 'removed sessions are never released')
    ctx.require(full >= 6, 'runs of the cleanup over sessions')
    ctx.done(E)


def truth(v):
    return v == TRUE or v == ('int', 1)


def state_of(ctx, el):
    return ('fld', ('deref', ('ld', ('fld', el, 'second'), 0)), ctx.statef)


def id_of(ctx, s):
    return ('ld', ('fld', s, ctx.idf), 0)


class One(Cfg):
    linear = True

    def inline(self, eng, fn):
        return False

    def on_call(self, eng, st, c):
        if c.bqn.startswith(SS + '::') and c.node.get('o') is not None and c.name in ('getDisconnectType', 'getTotals'):
            return [(st.emit(c.name), ('end', len([e for e in st.tr if e[0] == 'getDisconnectType'])), None)]
        return None


def reading(ctx):
    """the collector says how it counted a session"""
    f = ctx.fn('StatCollector::collect')
    types = dict(ctx.P.enums[SS + '::DisconnectType'])
    E = Engine(ctx.P, One())
    for st, v, l in E.run(f)[0]:
        ctx.count('collect_paths')
        ev = [e[0] for e in st.tr if e[0] in ('getDisconnectType', 'getTotals')]
        run_ = enum_is(E, st, ('end', 0), types, 'NOT_DISCONNECTED')
        if run_ is None or v != (FALSE if run_ else TRUE) and v != ('int', int(not run_)) or ev[:1] != ['getDisconnectType'] or 'getDisconnectType' in ev[1:]:
            ctx.violation('one reading', 'StatCollector::collect does not report whether it counted the session as ended, by a state read once before the counters (order: %s; result: %s)' % (', '.join(ev), pp(v)[:60]),
                          loc_of(f), trace_lines(st)[:8])
            break
    ctx.done(E)


class Srv(ContCfg):
    cont_event = True
    unroll = 1

    def inline(self, eng, fn):
        return fn.get('cl') == SV or bool(fn.get('lam'))

    def boundary(self, eng, st, c):
        if c.bqn == SE + '::start':
            return [(st.emit('start', c.recvloc), ('void',), None)]
        if c.bqn == SE + '::state':
            l = ('fld', c.recvloc, 'state')
            return [(st, ('ld', l, 0), l)]
        if c.bqn == SS + '::id':
            return [(st, ('id', c.recvloc), None)]
        return super().boundary(eng, st, c)


def server(ctx):
    rec = ctx.record('Server')
    tab = [f['n'] for f in rec['fields'] if 'map<' in f['t'] and 'Session>' in f['t'] or 'map' in f['t'] and 'SessionPtr' in f['t']]
    dele = [f['n'] for f in rec['fields'] if f['n'] not in tab and ('SessionPtr' in f['t'] or 'shared_ptr<Bloomberg::amqpprox::Session>' in f['t'])]
    ctx.require(len(tab) == 1 and len(dele) == 1, 'the session table of the server')
    tab, dele = tab[0], dele[0]
    E = Engine(ctx.P, Srv())
    ents = [Entry(('fn', f['id'], f['qn']), 'api', (), (f['qn'], f['file'], f['l'])) for f in ctx.P.functions.values()
            if f.get('cl') == SV and f.get('b') and f.get('acc') == 0 and not f.get('lam') and f.get('kind') not in ('dtor', 'ctor')]
    reg = rem = 0
    for e, outs, thr in explore(E, ents):
        name = e.name(ctx.P)
        acc = e.kind.endswith('async_accept')
        for st, v, l in outs:
            ctx.count('server_paths')

            def bad(k, text):
                ctx.violation(k, text, e.site[1:] if e.kind == 'api' else None, trace_lines(st)[:10] + chain(ctx, e))
            puts = [(i, x) for i, x in enumerate(st.tr) if x[0] in ('set', 'insert', 'emplace', 'insert_or_assign', 'try_emplace') and x[1] == tab or x[0] == 'mut' and x[1] == tab and x[2] in ('emplace', 'insert', 'insert_or_assign', 'try_emplace')]
            takes = [(i, x) for i, x in enumerate(st.tr) if x[0] in ('erase', 'assign', 'mut') and x[1] == tab and (i, x) not in puts]
            starts = [(i, x) for i, x in enumerate(st.tr) if x[0] == 'start']
            made = [k for k, x in st.mem.items() if k[0] == 'heap' and x[0] == 'mk' and x[1] == SE]
            if acc:
                failed = any(x is True and mentions(a, lambda t: t[:1] == ('arg',)) for a, x in st.facts.items()) or any(
                    x is False and a[0] != 't' and mentions(a, lambda t: isinstance(t, tuple) and t[:1] == ('arg',)) for a, x in st.facts.items())
                if not made:
                    if not failed:
                        bad('accepted', 'an accepted connection gets no session')
                    if puts or starts:
                        bad('accepted', 'a failed accept registers or starts a session')
                    continue
                reg += 1
                s = made[0]
                if not puts and any(x is True and a[0] == 'has' and field_of(a[1]) == tab and a[2] == ('id', ('fld', s, 'state')) for a, x in st.facts.items()):
                    continue        # a new identifier is not in the table yet
                if len(made) != 1 or len(puts) != 1 or len(starts) != 1:
                    bad('registered', 'an accepted connection is registered %d times and started %d times' % (len(puts), len(starts)))
                    continue
                k, val = put_of(puts[0][1])
                if k != ('id', ('fld', s, 'state')) or val != ('ptr', s):
                    bad('registered', 'an accepted session is not registered under its own identifier')
                if starts[0][1][1] != s:
                    bad('started', 'the session started is not the one accepted')
                if starts[0][0] < puts[0][0]:
                    bad('order', 'a session is started before it is registered')
                if takes:
                    bad('dropped', 'accepting a connection removes sessions from the table')
                continue
            if puts or starts:
                bad('registered elsewhere', '%s registers or starts a session' % name)
            if takes:
                rem += 1
                ins = [x for x in st.tr if x[0] == 'mut' and x[1] == dele and x[2] in ('insert', 'emplace', 'push_back', 'emplace_back')]
                f = ctx.P.functions.get(e.f[1]) if e.kind == 'api' else None
                key = takes[0][1][2] if takes[0][1][0] == 'erase' else None
                if e.kind != 'api' or not f['p'] or len(takes) != 1 or key is None or not is_entry(key, tab, argval(f, 0)):
                    bad('removed', '%s removes something else than the session with the identifier it is given' % name)
                elif len(ins) != 1 or not any(is_entry_val(x, tab, argval(f, 0)) for x in ins[0][3]):
                    bad('kept', '%s does not keep the removed session for release on the event loop' % name)
            clears = [x for x in st.tr if x[1:2] == (dele,) and (x[0] == 'assign' or x[0] == 'mut' and x[2] in ('clear', 'erase', 'swap'))]
            if clears:
                posts = [x for x in st.tr if x[0] == 'cont' and x[1].endswith(('::post', '::dispatch')) and mentions(x[2], lambda t: isinstance(t, tuple) and t[:1] == ('fld',) and t[2:3] == (dele,))]
                ctx.count('releases')
                if not posts:
                    bad('release', '%s releases removed sessions outside the event loop' % name)
    ctx.require(reg >= 1, 'the handler of accepted connections')
    f = ctx.fn('Server::removeSession')
    if not rem:
        ctx.violation('removed', 'no function of the server removes a session from the table', loc_of(f))
    ctx.done(E)


def put_of(x):
    if x[0] == 'set':
        return x[2], x[-1]
    a = x[2:] if x[0] != 'mut' else x[3]
    if len(a) == 1 and isinstance(a[0], tuple) and a[0] and isinstance(a[0][0], tuple):
        a = a[0]
    if len(a) == 1:
        d = recd(a[0]) if a[0][0] == 'rec' else {}
        return d.get('first'), d.get('second')
    return a[0], a[1]


def is_entry(k, tab, ids):
    return k in ids or isinstance(k, tuple) and k[:1] in (('find',), ('iter',)) and any(i in walk_terms(k) for i in ids)


def is_entry_val(v, tab, ids):
    return any(t[:1] == ('mat',) and field_of(t[1]) == tab and t[2] in ids for t in walk_terms(v) if isinstance(t, tuple) and len(t) > 2)


def walk_terms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                yield from walk_terms(x)


def writes(x):
    """members and globals an expression tree assigns to"""
    if isinstance(x, list):
        for y in x:
            yield from writes(y)
    elif isinstance(x, dict):
        t = None
        if x.get('k') == 'asg':
            t = x.get('x')
        elif x.get('k') == 'un' and x.get('op') in ('++', '--', 'pre++', 'post++', 'pre--', 'post--', '&'):
            t = x.get('e')
        while isinstance(t, dict) and t.get('k') in ('icast', 'cast', 'paren'):
            t = t.get('e')
        if isinstance(t, dict):
            if t.get('k') == 'mem':
                yield t.get('f')
            if t.get('k') == 'ref':
                yield t.get('qn')
        for y in x.values():
            yield from writes(y)


def identifiers(ctx):
    f = ctx.fn('SessionState::id')
    E = Engine(ctx.P, EffectCfg())
    v = {field_of(x) for st, x, l in E.run(f)[0]}
    ctx.require(len(v) == 1 and None not in v, 'SessionState::id')
    ctx.idf = v.pop()
    v = set()
    for g in ctx.fns('Session::state'):
        v |= {field_of(('ld', l, 0)) if l else field_of(x) for st, x, l in E.run(g)[0]}
    ctx.require(len(v) == 1 and None not in v, 'Session::state')
    ctx.statef = v.pop()
    E = Engine(ctx.P, Plain())
    src = set()
    ctors = [g for g in ctx.P.functions.values() if g.get('cl') == SS and g.get('kind') == 'ctor' and g.get('b') and not (len(g['p']) == 1 and 'SessionState' in g['p'][0]['t'])]
    ctx.require(ctors, 'constructor of SessionState')
    for g in ctors:
        for st, v, l in E.run(g)[0]:
            ctx.count('constructions')
            x = E.load(st, ('fld', T, ctx.idf))
            ok = False
            for k, y in st.mem.items():
                if k[0] == 'glob':
                    old = ('ld', k, 0)
                    a, b = lin_add(strip(y), old, -1), lin_add(strip(x), old, -1)
                    if strip(a) == ('int', 1) and strip(b) in (('int', 0), ('int', 1)):
                        ok = True
                        src.add((k[1], strip(b)))
            if not ok:
                ctx.violation('identifier', 'a session does not get the next identifier of a counter (%s)' % pp(x)[:80], loc_of(g), trace_lines(st)[:6])
    if len(src) > 1:
        ctx.violation('identifier', 'session identifiers come from different counters', loc_of(ctors[0]))
    names = {ctx.idf: 'identifier'} | {n: 'counter' for n, b in src}
    for g in ctx.P.functions.values():
        if g in ctors:
            continue
        for w in writes(g.get('b')):
            if w in names and (w != ctx.idf or g.get('cl') == SS):
                ctx.violation('identifier', 'the %s of sessions is changed in %s' % (names[w], g['qn']), loc_of(g))


class Plain(Cfg):
    linear = True

    def inline(self, eng, fn):
        return False


def strip(v):
    while v[0] == 'trunc':
        v = v[3]
    if v[0] == 'lin' and not v[2]:
        return ('int', v[1])
    return v


def run(ctx):
    ctx.rule('accept: one session, registered under its own identifier, then started; identifiers come from one counter')
    ctx.rule('the table loses exactly the session named by its identifier, which is kept until the event loop releases it')
    ctx.rule('cleanup: each session counted once, then one announcement, then each session counted as ended taken back and removed once, then one reset; running sessions stay')
    identifiers(ctx)
    reading(ctx)
    cleanup(ctx)
    server(ctx)
