"""C15: statistics attribute every quantity to its own name and direction."""
import json
import re
from checklib import *
from tab import *
from text import text_call, items
import flow07
import sessx

EXPLANATION = ('Every path of the collector, of the snapshot arithmetic and of the three publishers, as functions of the session counters: which counter is added to, subtracted from or printed under which name, '
               'for each table; composed with what the session counters count.')
SS, CS, SC = NS + 'SessionState', NS + 'ConnectionStats', NS + 'StatCollector'
T = ('obj', 'this')
# positions of getTotals
TOT = ('ingress packets', 'ingress frames', 'ingress bytes', 'ingress latency', 'ingress latency count',
       'egress packets', 'egress frames', 'egress bytes', 'egress latency', 'egress latency count')
TRAFFIC = {'packetsSent': 'egress packets', 'packetsReceived': 'ingress packets', 'framesSent': 'egress frames', 'framesReceived': 'ingress frames',
           'bytesSent': 'egress bytes', 'bytesReceived': 'ingress bytes'}
DIST = {'sendLatency': ('egress latency', 'egress latency count'), 'receiveLatency': ('ingress latency', 'ingress latency count')}
END = {'NOT_DISCONNECTED': 'activeConnectionCount', 'DISCONNECTED_CLIENT': 'removedConnectionClientSnapped', 'DISCONNECTED_SERVER': 'removedConnectionBrokerSnapped',
       'DISCONNECTED_CLEANLY': 'removedConnectionGraceful', 'DISCONNECTED_PROXY': 'removedConnectionGraceful'}
FLAGS = {'getPaused': 'pausedConnectionCount', 'getAuthDeniedConnection': 'authDeniedConnectionCount', 'getLimitedConnection': 'limitedConnectionCount'}
ALL = set(TRAFFIC) | set(END.values()) | set(FLAGS.values())


LISTS = {CS + '::sessionMetrics': 'sessionMetrics', CS + '::statsTypes': 'statsTypes', CS + '::distributionMetrics': 'distributionMetrics'}


class C(Cfg):
    linear = True
    unroll = 1
    exact = True

    def inline(self, eng, fn):
        return fn.get('cl') not in (SS, CS)

    def on_call(self, eng, st, c):
        if c.bqn in LISTS and self.exact:
            loc = ('glob', c.bqn)
            s = st.copy()
            s.mem[loc] = ('list', 'names', tuple(('str', x) for x in eng.names[LISTS[c.bqn]]))
            return [(s, s.mem[loc], loc)]
        if c.bqn == CS + '::statsValue':
            loc = ('fld', c.recvloc, ('stat', c.args[0]))
            return [(st, st.mem.get(loc, ('ld', loc, 0)), loc)]
        if c.bqn == CS + '::addDistributionStats':
            s = st
            for i, p in ((1, 'total'), (2, 'count')):
                loc = ('fld', c.recvloc, ('dist', c.args[0], p))
                s = eng.store(s, loc, lin_sum(eng, s.mem.get(loc, ('ld', loc, 0)), c.args[i]), c.node, c.fr)
            return [(s.emit('dist', c.recvloc, c.args[0], c.args[1], c.args[2]), ('void',), None)]
        if c.bqn.startswith(CS + '::distribution') and c.node.get('o') is not None:
            return [(st, (c.name, c.recvloc) + tuple(c.args), None)]
        if c.bqn == SS + '::getTotals':
            s = st
            for n, a in zip(TOT, c.args):
                s = eng.store(s, a[1] if a[0] == 'ptr' else ('deref', a), ('tot', n), c.node, c.fr)
                eng.ranges.setdefault(('tot', n), (0, (1 << 64) - 1))
            return [(s, ('void',), None)]
        if c.bqn.startswith(SS + '::') and c.node.get('o') is not None:
            return [(st, ('q', c.name) + tuple(c.args), None)]
        return text_call(eng, st, c)

    def on_store(self, eng, st, loc, val, node, fr):
        if loc[0] == 'fld' and isinstance(loc[2], tuple) and loc[2][0] == 'stat':
            return st.emit('stat', loc[1], loc[2][1], val)
        return st


def lin_sum(eng, a, b):
    d = dict(lin(a)[1])
    k = lin(a)[0]
    kb, db = lin(b)
    for t, n in db.items():
        d[t] = d.get(t, 0) + n
    return mk(k + kb, d)


def lin(v):
    """value modulo 2^64 -> (constant, {term: factor})"""
    while v[0] == 'trunc' and v[1] == 64:
        v = v[3]
    if v[0] == 'int':
        return v[1], {}
    if v[0] == 'lin':
        k, d = v[1], {}
        for t, n in v[2]:
            k2, d2 = lin(t) if t[0] in ('trunc', 'lin', 'int') else (0, {t: 1})
            k += n * k2
            for x, m in d2.items():
                d[x] = d.get(x, 0) + n * m
        return k, {x: m for x, m in d.items() if m}
    return 0, {v: 1}


def mk(k, d):
    d = {t: n for t, n in d.items() if n}
    if not d:
        return ('int', k)
    return ('lin', k, tuple(sorted(d.items(), key=str)))


def delta(loc, v):
    """what was added to the location: {term: factor} with the constant under 1, or None if it was not an addition"""
    k, d = lin(v)
    if d.get(('ld', loc, 0)) != 1:
        return None
    d = {t: n for t, n in d.items() if t != ('ld', loc, 0)}
    k = k if k < 1 << 63 else k - (1 << 64)
    if k:
        d[1] = k
    return d


def tables(ctx, st, where):
    """the changes a path makes: {table: {name: {term: factor}}}"""
    out = {}
    for loc, v in st.mem.items():
        if not (loc[0] == 'fld' and isinstance(loc[2], tuple) and loc[2][0] in ('stat', 'dist')):
            continue
        name = loc[2][1]
        n = name[1] if name[0] == 'str' else pp(name)
        if loc[2][0] == 'dist':
            n = (n, loc[2][2])
        d = delta(loc, v)
        out.setdefault(table(loc[1]), {})[n] = d if d is not None else {('overwritten', v): 1}
    return out


def table(loc):
    """name of the table a ConnectionStats lies in"""
    s = pp(loc)
    for n, pat in (('vhost', 'vhosts'), ('backend', 'backends'), ('source', 'sources'), ('overall', 'verall')):
        if loc[0] == 'mat' and pat in pp(loc[1]):
            return (n, loc[2], snap(loc))
        if n == 'overall' and loc[0] == 'fld' and pat in str(loc[2]):
            return (n, None, snap(loc))
    return (s, None, None)


def snap(loc):
    """the member of the collector it belongs to"""
    l = loc
    f = None
    while isinstance(l, tuple) and l != T:
        if l[0] == 'fld' and l[1] == T:
            return l[2]
        l = l[1]
    return f


def key_ok(n, k):
    if n == 'overall':
        return True
    if n == 'vhost':
        return k == ('q', 'getVirtualHost')
    E, I = ('getf', ('q', 'getEgress'), 'second'), ('getf', ('q', 'getIngress'), 'second')
    if n == 'source':
        return k == ('q', 'hostname', I)
    i = [x for x in items(k)]
    return len(i) == 3 and i[0] == ('q', 'hostname', E) and i[1] == ('str', '_') and mentions(i[2], lambda t: t[0] == 'call' and t[1].endswith('::port') and (E in t[1:] or E in (t[2] if isinstance(t[2], tuple) else ()) or t[2] == E))


def show(d):
    return ' + '.join('%s%s' % ('' if n == 1 else '%d*' % n, t if t == 1 else pp(t)) for t, n in d.items()) if d else 'nothing'


def counters(ctx):
    """what the counters behind getTotals count"""
    E = engine(ctx, EffectCfg())
    E.cfg.linear = True
    f = ctx.fn('SessionState::getTotals')
    src = {}
    outs = E.run(f)[0]
    ctx.require(len(outs) >= 1 and len(f['p']) == 10, 'getTotals with ten results')
    for st, v, l in outs:
        for i, p in enumerate(f['p']):
            x = st.mem.get(('deref', ('arg', p['n'])))
            if x is None or x[0] != 'ld' or x[1][0] != 'fld' or x[1][1] != T:
                ctx.violation('getTotals: ' + TOT[i], 'SessionState::getTotals does not report a counter as result %d (%s)' % (i + 1, TOT[i]), loc_of(f))
            elif src.setdefault(i, x[1][2]) != x[1][2]:
                ctx.violation('getTotals: ' + TOT[i], 'result %d of SessionState::getTotals (%s) is not always the same counter' % (i + 1, TOT[i]), loc_of(f))
    inv = {}
    for i, n in src.items():
        if n in inv:
            ctx.violation('getTotals: ' + TOT[i], 'SessionState::getTotals reports one counter as both %s and %s' % (TOT[inv[n]], TOT[i]), loc_of(f))
        inv[n] = i
    for fn, want in (('incrementIngressTotals', {0: {1: 1}, 1: {'a0': 1}, 2: {'a1': 1}}), ('incrementEgressTotals', {5: {1: 1}, 6: {'a0': 1}, 7: {'a1': 1}}),
                     ('addIngressLatency', {3: {'a0': 1}, 4: {1: 1}}), ('addEgressLatency', {8: {'a0': 1}, 9: {1: 1}})):
        f = ctx.fn('SessionState::' + fn)
        for st, v, l in E.run(f)[0]:
            got = {}
            for k, x in st.mem.items():
                if k[0] == 'fld' and k[1] == T:
                    d = delta(k, x)
                    if d is None:
                        d = {('overwritten',): 1}
                    d = {('a%d' % [i for i, p in enumerate(f['p']) if t in argval(f, i)][0] if t != 1 and any(t in argval(f, i) for i in range(len(f['p']))) else t): n for t, n in d.items()}
                    if d:
                        got[inv.get(k[2], k[2])] = d
            ctx.count('counter_steps')
            if got != want:
                ctx.violation('counts of ' + fn, 'SessionState::%s does not count exactly %s' % (fn, ', '.join(TOT[i] for i in sorted(want))), loc_of(f),
                              ['%s: %s' % (TOT[i] if isinstance(i, int) else i, d) for i, d in got.items()])
    ctx.done(E)


def collector(ctx):
    E = engine(ctx, C())
    cur = set()
    added = {}
    for fn, sign in (('collect', 1), ('deletedSession', -1)):
        f = ctx.fn('StatCollector::' + fn)
        outs, thr = E.run(f)[:2]
        ctx.require(outs, fn + ' has paths')
        for st, v, l in outs:
            ctx.count('collector_paths')
            ts = tables(ctx, st, f)

            def bad(k, text):
                ctx.violation('%s: %s' % (fn, k), 'StatCollector::%s: %s' % (fn, text), loc_of(f), trace_lines(st)[:12])
            names = {}
            for t in ts:
                if t[0] not in ('vhost', 'backend', 'source', 'overall'):
                    bad('table', 'changes statistics of something else: ' + t[0][:100])
                    continue
                if not key_ok(t[0], t[1]):
                    bad('key of ' + t[0], 'the %s statistics are filed under %s' % (t[0], pp(t[1])[:120]))
                if t[0] in names:
                    bad('twice', 'two %s entries are changed' % t[0])
                names[t[0]] = ts[t]
                cur.add(t[2])
            flag = per_source(st)
            need = {'vhost', 'backend', 'overall'} | ({'source'} if flag else set())
            for n in sorted(need - set(names)):
                bad('missing ' + n, 'the %s statistics are not %s' % (n, 'added to' if sign > 0 else 'taken back'))
            if 'source' in names and flag is not True and any(names['source'].values()):
                bad('sources disabled', 'per-source statistics are %s although they are not collected' % ('added' if sign > 0 else 'subtracted'))
            for n, d in names.items():
                want = {m: {('tot', q): sign} for m, q in TRAFFIC.items()}
                for m, (a, b) in DIST.items():
                    want[(m, 'total')] = {('tot', a): sign}
                    want[(m, 'count')] = {('tot', b): sign}
                if sign > 0:
                    e = ended(E, st)
                    if e == []:
                        continue        # no such state
                    if e is None:
                        bad('end state', 'does not tell how the session ended')
                        continue
                    if len({END.get(x) for x in e}) != 1:
                        bad('end state', 'does not tell %s apart' % ' and '.join(sorted(e)))
                        continue
                    want[END[min(e)]] = {1: 1}
                    for q, m in FLAGS.items():
                        x = flag_of(st, q)
                        if x is None:
                            bad('flag ' + q, 'does not count %s' % m)
                        elif x:
                            want[m] = {1: 1}
                for m in sorted(set(want) | set(d), key=str):
                    ctx.count('attributions')
                    g = {k: x for k, x in d.get(m, {}).items() if x}
                    if g != want.get(m, {}):
                        bad('%s %s' % (n, m if isinstance(m, str) else ' '.join(m)), 'the %s statistic %s changes by %s instead of %s' % (
                            n, m if isinstance(m, str) else ' '.join(m), show(g)[:120], show(want.get(m, {}))))
    if len(cur) != 1:
        ctx.violation('snapshots', 'statistics are added to one snapshot and taken back from another: %s' % ', '.join(map(str, cur)), loc_of(ctx.fn('StatCollector::deletedSession')))
    ctx.done(E)
    return min(cur, key=str) if cur else None


def per_source(st):
    for a, x in st.facts.items():
        if a[0] == 't' and a[1][0] == 'ld' and a[1][1][0] == 'fld' and a[1][1][1] == T:
            return x
    return None


def flag_of(st, q):
    return st.facts.get(('t', ('q', q)))


def ended(E, st):
    en = E.P.enums[SS + '::DisconnectType']
    en = en.get('e', en) if isinstance(en, dict) else dict(en)
    vals = [n for n in END]
    out = []
    for n in vals:
        r = enum_is(E, st, ('q', 'getDisconnectType'), en, n)
        if r is True:
            return [n]
        if r is None:
            out.append(n)
    return out if len(out) < len(vals) else None


def name_lists(ctx):
    """the lists of names, in the order of the source"""
    out = {}
    for qn, n in LISTS.items():
        f = ctx.fn('ConnectionStats::' + n)
        got = []

        def strings(x, globs=True):
            if isinstance(x, dict):
                if x.get('k') == 'str':
                    got.append(x['v'])
                if x.get('k') == 'ref' and x.get('vk') == 'global' and globs and x.get('qn') in ctx.P.globals:
                    strings(ctx.P.globals[x['qn']].get('i'), False)
                for k, v in x.items():
                    strings(v, globs)
            elif isinstance(x, list):
                for v in x:
                    strings(v, globs)
        strings(f['b'])
        want = {'sessionMetrics': set(TRAFFIC), 'statsTypes': ALL, 'distributionMetrics': set(DIST)}[n]
        ctx.count('names', len(got))
        if set(got) != want:
            ctx.violation('names: ' + n, 'ConnectionStats::%s differs from the documented names: %s' % (n, ', '.join(sorted(set(got) ^ want))), loc_of(f))
        out[n] = got
    return out


def engine(ctx, cfg):
    E = Engine(ctx.P, cfg)
    E.names = ctx.names
    return E


PROCESS = {'d_rssKB': {'rss'}, 'd_user': {'user'}, 'd_system': {'sys'}, 'd_overall': {'user', 'sys'}}


def table_name(f):
    for n, pat in (('vhost', 'vhosts'), ('backend', 'backends'), ('source', 'sources'), ('overall', 'verallConn')):
        if pat in str(f):
            return n
    return None


def arithmetic(ctx, cur):
    cfg = C()
    cfg.loop_events = True
    E = engine(ctx, cfg)
    f = ctx.fn('StatCollector::populateStats')
    outs, thr = E.run(f)[:2]
    tabs = set()
    for st, v, l in outs:
        ctx.count('snapshot_paths')
        done = {}

        def bad(k, text):
            ctx.violation('reported ' + k, text, loc_of(f), trace_lines(st)[:8])
        entries = {}
        for e in st.tr:
            if e[0] == 'iter' and mentions(e[1], lambda t: t == T) and origin(e[1]) and origin(e[1])[1]:
                entries[origin(e[1])[1:]] = e[1]
            elif e[0] == 'stat':
                _, obj, name, val = e
                k, d = lin(val)
                ok = k == 0 and len(d) == 2 and sorted(d.values()) == [-1, 1]
                if ok:
                    plus = [t for t, n in d.items() if n == 1][0]
                    minus = [t for t, n in d.items() if n == -1][0]
                    ok = statof(plus) and statof(minus) and statof(plus)[1] == name == statof(minus)[1]
                    if ok:
                        a, b = origin(statof(plus)[0]), origin(statof(minus)[0])
                        ok = a is not None and b is not None and a[0] == cur and (b[0] not in (cur, None) and a[1:] == b[1:] or b[0] is None and fresh(st, a, cur))
                        if ok:
                            done.setdefault(a[1:], set()).add(name[1])
                            tabs.add(a[1])
                if not ok:
                    bad(pp(name)[:60], 'a reported statistic is not the current value less the previous one of the same name and entry: %s' % pp(val)[:200])
            elif e[0] == 'dist':
                _, obj, name, a, b = e
                ok = True
                o = None
                for x, w in ((a, 'first'), (b, 'second')):
                    k, d = lin(x)
                    ok = ok and k == 0 and list(d.values()) == [-1]
                    if ok:
                        t = list(d)[0]
                        ok = t[0] == 'getf' and t[2] == w and t[1][0] == 'distributionPair' and t[1][2] == name
                        if ok:
                            o = origin(t[1][1])
                            ok = o is not None and o[0] != cur
                me = origin(obj)
                if ok and o[0] is not None and me is not None and me[1] and me[1:] != o[1:]:
                    ok = False
                if not ok:
                    bad('latency', 'a reported latency is not reduced by the previous sum and count of the same name: %s / %s' % (pp(a)[:100], pp(b)[:100]))
                else:
                    n = {t for t in done if o[0] is None or t == o[1:]} or {o[1:]}
                    for t in n if len(n) == 1 else list(done)[-1:]:
                        done.setdefault(t, set()).add(name[1])
        ov = [t for t in done if t[0] == 'overall']
        extra = set().union(*done.values()) - set(TRAFFIC) - set(DIST)
        if extra:
            bad('count', 'counts of sessions are reported less those of the previous report: %s' % ', '.join(sorted(extra)))
        for k, x in st.mem.items():
            if k[0] == 'fld' and mentions(k[1], lambda t: t == ('arg', f['p'][0]['n'])):
                n = table_name(k[2])
                if n and k[1] == ('deref', ('arg', f['p'][0]['n'])):
                    ctx.count('reported_tables')
                    got = [table_name(t[2]) for t in walkt(x) if isinstance(t, tuple) and t and t[0] == 'fld' and table_name(t[2])]
                    if set(got) - {n}:
                        bad('table ' + n, 'the %s statistics are reported as those of %s' % (' '.join(sorted(set(got))), n))
                p_ = PROCESS.get(k[2])
                if p_:
                    ctx.count('process_figures')
                    got = {w for w in ('rss', 'user', 'sys') if w in pp(x).lower()}
                    if got != p_:
                        bad('process ' + k[2], 'the process figure %s is computed from %s' % (k[2], pp(x)[:100]))
        for t in [*entries, *(ov or [('overall', None)])]:
            ctx.count('reported_entries')
            miss = (set(TRAFFIC) | set(DIST)) - done.get(t, set())
            if miss:
                bad(t[0], 'an entry of the %s statistics is reported without taking the previous value of %s off' % (t[0], ', '.join(sorted(miss))))
    for t in ('vhost', 'backend', 'source', 'overall'):
        if t not in tabs:
            ctx.violation('reported table ' + t, 'the %s statistics are not reported as differences to the previous snapshot' % t, loc_of(f))
    ctx.done(E)
    return E


class Plain(Cfg):
    linear = True
    unroll = 1


def basics(ctx, cur):
    """the statistics object and the change of snapshots"""
    E = engine(ctx, Plain())
    name = lambda t: pp(t) == 'name' or pp(t) == 'arg:name'

    def cell(t, which):
        """(map member) of a value of this object's entry for `name`"""
        if which:
            if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2] == which:
                t = ('ld', t[1][1], 0)
            elif t[0] == 'getf' and t[2] == which:
                t = t[1]
            else:
                return None
        if t[0] == 'ld' and t[1][0] == 'mat' and name(t[1][2]) and field_of(t[1][1]):
            return field_of(t[1][1])
        return None
    f = ctx.fn('ConnectionStats::addDistributionStats')
    dist = set()
    for st, v, l in E.run(f)[0]:
        ch = {}
        for k, x in st.mem.items():
            if k[0] == 'fld' and k[1][0] == 'mat':
                d = delta(k, x)
                ch[k[2]] = (cell(('ld', k, 0), k[2]), d)
        for part, i in (('first', 1), ('second', 2)):
            c, d = ch.pop(part, (None, None))
            ctx.count('object_laws')
            if c is None or d is None or len(d) != 1 or list(d)[0] not in argval(f, i) or list(d.values()) != [1]:
                ctx.violation('latency sum', 'ConnectionStats::addDistributionStats does not add its %s to the %s of the latency of that name' % (('total', 'sum'), ('count', 'count'))[i - 1], loc_of(f))
            dist.add(c)
        if ch:
            ctx.violation('latency sum', 'ConnectionStats::addDistributionStats changes something else', loc_of(f))
    for fn in ('statsValue', 'distributionPair', 'distributionCount', 'distributionValue'):
        for f in ctx.fns('ConnectionStats::' + fn):
            full = 0
            for st, v, l in E.run(f)[0]:
                ctx.count('object_laws')
                if v == ('int', 0) or fn == 'distributionPair' and not mentions(v, lambda t: t == T):
                    known = any(a[0] == 'has' or mentions(a, lambda t: isinstance(t, tuple) and cell(t, 'second') is not None) for a in st.facts)
                    if fn == 'statsValue' or not known:
                        ctx.violation('lookup ' + fn, 'ConnectionStats::%s answers zero although there is a value' % fn, loc_of(f), trace_lines(st)[:6])
                    continue
                full += 1
                if fn == 'statsValue':
                    ok = cell(v, None) is not None and cell(v, None) not in dist
                elif fn == 'distributionPair':
                    ok = cell(v, None) in dist or v[0] == 'rec' and all(cell(x, w) in dist for w, x in rec_fields(v))
                elif fn == 'distributionCount':
                    ok = cell(v, 'second') in dist
                else:
                    n = [t for t in walkt(v) if isinstance(t, tuple) and t and t[0] in ('ld', 'getf') and cell(t, t[1][2] if t[0] == 'ld' and t[1][0] == 'fld' else t[2]) in dist]
                    n = list(dict.fromkeys(t[1][2] if t[0] == 'ld' else t[2] for t in n))
                    ok = n == ['first', 'second'] and '/' in str(v)[:20]
                if not ok:
                    ctx.violation('lookup ' + fn, 'ConnectionStats::%s does not answer the value kept under that name: %s' % (fn, pp(v)[:100]), loc_of(f))
            if not full:
                ctx.violation('lookup ' + fn, 'ConnectionStats::%s never answers a value' % fn, loc_of(f))
    # reset: what was current becomes what is compared with, and a fresh snapshot follows
    f = ctx.fn('StatCollector::reset')
    rec = ctx.P.records.get(NS + 'StatSnapshot') or {}
    for st, v, l in E.run(f)[0]:
        ctx.count('resets')
        moved, fresh_ = set(), set()
        for k, x in st.mem.items():
            m = snap(k)
            if m is None or k[0] != 'fld' or k[1] == T:
                continue
            path = pp(k).split('.', 2)[-1]
            if m == cur:
                if mentions(x, lambda t: t == T):
                    ctx.violation('reset', 'StatCollector::reset keeps %s of what was collected in the current snapshot' % path, loc_of(f))
                fresh_.add(path)
            else:
                if x == ('ld', ('fld',) + replace_snap(k, cur)[1:], 0):
                    moved.add(path)
                else:
                    ctx.violation('reset', 'StatCollector::reset does not make the current %s the one compared with next: %s' % (path, pp(x)[:80]), loc_of(f))
        for k, x in st.mem.items():
            # whole snapshots assigned
            if k[0] == 'fld' and k[1] == T:
                if k[2] == cur and not mentions(x, lambda t: t == T):
                    fresh_ |= NEEDED
                elif k[2] != cur and x == ('ld', ('fld', T, cur), 0):
                    moved |= NEEDED
        for what, got in (('become the basis of the next report', moved), ('start from nothing', fresh_)):
            for n in NEEDED:
                part = [g for g in got if n in g]
                whole = [g for g in part if '.' not in g]
                if not part or not whole and len({g.split('.')[1] for g in part}) < len(ctx.P.records[CS]['fields']):
                    ctx.violation('reset ' + n, 'after StatCollector::reset the %s statistics do not %s' % (n, what), loc_of(f))
    ctx.done(E)


NEEDED = {'vhosts', 'sources', 'backends', 'verall'}


def replace_snap(k, cur):
    if k[0] == 'fld' and k[1] == T:
        return ('fld', T, cur)
    return (k[0], replace_snap(k[1], cur)) + k[2:]


def rec_fields(v):
    out = []
    for x in v[1:]:
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str):
                    out.append(y)
    return out or [('?', v)]


def listname(t):
    """which list of names an element is of"""
    s = pp(t)
    for x in LISTS.values():
        if x in s:
            return x
    return None


def statof(t):
    if t[0] == 'ld' and t[1][0] == 'fld' and isinstance(t[1][2], tuple) and t[1][2][0] == 'stat':
        return t[1][1], t[1][2][1]
    return None


def origin(loc):
    """(member of the collector or None for a fresh object, table, key)"""
    l = loc
    key = None
    tab = None
    while isinstance(l, tuple):
        if l == T:
            return None
        if l[0] == 'var':
            return (None, tab, key)
        if l[0] == 'mat':
            key = l[2]
            if key[0] == 'ld' and key[1][0] == 'fld' and key[1][2] == 'first':
                key = ('same', key[1][1])
        if l[0] == 'elem':
            key = ('same', l)
        if l[0] == 'fld':
            for n, pat in (('vhost', 'vhosts'), ('backend', 'backends'), ('source', 'sources'), ('overall', 'verall')):
                if pat in str(l[2]):
                    tab = n
            if l[1] == T:
                return (l[2], tab, ('same', None) if key is None else key)
        l = l[1]
    return None


def fresh(st, a, cur):
    """no earlier entry: compared with zero only if there is no entry in the previous snapshot"""
    return any(x is False and f[0] == 'has' and snap(f[1]) not in (cur, None) for f, x in st.facts.items()) or a[1] == 'overall'


# ---------------------------------------------------------------- printing
def outtext(st):
    for k, v in st.mem.items():
        if k[0] == 'fld' and k[2] == '$text':
            return items(v)
    return ()


def as_json(toks):
    """text with values as numbers -> (object, values)"""
    s, vals = '', []
    for t in toks:
        if t[0] == 'str':
            s += t[1]
        elif s.count('"') - s.count('\\"') & 1:
            s += '<%d>' % len(vals)
            vals.append(t)
        else:
            s += '%d' % len(vals)
            vals.append(t)
    return json.loads(s, object_pairs_hook=lambda p: [('obj', k, v) for k, v in p]), vals, s


def overload(ctx, cls, what):
    """the format / publish functions by the kind of their first data parameter"""
    out = {}
    for f in ctx.fns(cls):
        ts = [p['t'] for p in f['p'] if 'ostream' not in p['t']]
        k = None
        if ts:
            t = ts[0]
            k = 'map' if 'map<' in t else 'pool' if 'PoolStats' in t else 'process' if 'ProcessStats' in t else 'conn' if 'ConnectionStats' in t else 'snapshot' if 'StatSnapshot' in t else None
        if k:
            out[k] = f
    return out


def argloc(f, k):
    return next(p for p in f['p'] if k in p['t'])


PROC = {'cpu_percent_overall': 'd_overall', 'cpu_percent_user': 'd_user', 'cpu_percent_system': 'd_system', 'mem_rss_kb': 'd_rssKB'}


class Outer(C):
    """the nested formatters stay calls"""
    unroll = 2

    def on_call(self, eng, st, c):
        if c.name in ('format', 'publish', 'publishVhost', 'publishHostnameMetrics') and c.bqn.startswith(NS) and c.fr.depth > 0 if hasattr(c.fr, 'depth') else False:
            return None
        return super().on_call(eng, st, c)


def json_formatter(ctx):
    cls = 'JsonStatFormatter::format'
    o = overload(ctx, cls, 'json')
    ctx.require(set(o) >= {'conn', 'map', 'process', 'pool', 'snapshot'}, 'the JSON formatter')
    E = engine(ctx, C())
    E.cfg.unroll = 2

    def each(f):
        for st, v, l in E.run(f)[0]:
            ctx.count('printed_forms')
            try:
                yield (st,) + as_json(outtext(st))
            except ValueError as x:
                ctx.violation('json form ' + kind(f), 'what the JSON formatter prints for %s is not JSON: %s' % (kind(f), x), loc_of(f), [''.join(t[1] if t[0] == 'str' else '<%s>' % pp(t)[-30:] for t in outtext(st))[:300]])

    def kind(f):
        return [k for k, g in o.items() if g is f][0]

    def conn(f, obj, vals, where, s):
        names = [k for _, k, v in obj]
        if set(names) != ALL or len(names) != len(ALL):
            ctx.violation('json names', 'the JSON form of connection statistics has the names %s instead of %s' % (', '.join(sorted(set(names) ^ ALL)), 'the documented ones'), loc_of(f))
        for _, k, v in obj:
            x = vals[v] if isinstance(v, int) else None
            ctx.count('attributions')
            if x is None or statof(x) is None or statof(x)[1] != ('str', k) or not where(statof(x)[0]):
                ctx.violation('json ' + k, 'the JSON formatter prints %s as %s' % (pp(x)[-60:] if x else v, k), loc_of(f))
    f = o['conn']
    p = argloc(f, 'ConnectionStats')
    for st, obj, vals, s in each(f):
        conn(f, obj, vals, lambda l: l == ('obj', p['n']), s)
    f = o['process']
    p = argloc(f, 'ProcessStats')
    for st, obj, vals, s in each(f):
        got = {k: fieldname(vals[v]) for _, k, v in obj if isinstance(v, int)}
        if got != PROC:
            ctx.violation('json process', 'the JSON formatter reports process figures as %s' % got, loc_of(f))
    f = o['pool']
    for st, obj, vals, s in each(f):
        d = {k: v for _, k, v in obj}
        ok = set(d) == {'spill_to_heap_count', 'pools'} and isinstance(d['spill_to_heap_count'], int) and vals[d['spill_to_heap_count']] in argval(f, [i for i, p in enumerate(f['p']) if 'long' in p['t'] and 'vector' not in p['t']][0])
        for x in d.get('pools', []) if ok else []:
            m = re.fullmatch(r'<(\d+)>', x[1])
            q = {k: fieldname(vals[v]) for _, k, v in x[2] if isinstance(v, int)}
            ok = ok and m and fieldname(vals[int(m.group(1))]) == 'd_bufferSize' and q == {'current': 'd_currentAllocation', 'highest': 'd_highwaterMark'}
        if not ok:
            ctx.violation('json pools', 'the JSON formatter reports pool figures under other names: %s' % s[:200], loc_of(f))
    f = o['map']
    for st, obj, vals, s in each(f):
        for _, k, v in obj:
            m = re.fullmatch(r'<(\d+)>', k)
            kk = vals[int(m.group(1))] if m else None
            if kk is None or not (kk[0] == 'ld' and kk[1][0] == 'fld' and kk[1][2] == 'first'):
                ctx.violation('json entry', 'the JSON formatter does not print an entry under its own key', loc_of(f))
                continue
            conn(f, v, vals, lambda l: l == ('fld', kk[1][1], 'second'), s)
    f = o['snapshot']
    E.cfg.unroll = 1
    for st, obj, vals, s in each(f):
        d = [k for _, k, v in obj]
        if sorted(d) != ['backends', 'bufferpool', 'overall', 'process', 'sources', 'vhosts']:
            ctx.violation('json sections', 'the JSON report has the sections %s' % ', '.join(d), loc_of(f))
        for _, k, v in obj:
            for x in leaves(v):
                if not section(k, vals[x]):
                    ctx.violation('json section ' + k, 'the section %s of the JSON report contains %s' % (k, pp(vals[x])[:100]), loc_of(f))
    ctx.done(E)


def leaves(v):
    if isinstance(v, int):
        yield v
    elif isinstance(v, list):
        for _, k, x in v:
            yield from leaves(x)


def section(k, t):
    s = pp(t)
    return {'overall': 'verall', 'process': 'rocess', 'bufferpool': 'ool', 'vhosts': 'vhosts', 'sources': 'sources', 'backends': 'backends'}.get(k, '?') in s


def single(t):
    """a figure in bytes or as it is"""
    k, d = lin(t)
    return list(d)[0] if k == 0 and len(d) == 1 and list(d.values())[0] in (1, 1024) else t


def fieldname(t):
    while t[0] == 'text-of':
        t = t[1]
    if t[0] == 'ld' and t[1][0] == 'fld' and isinstance(t[1][2], str):
        return t[1][2]
    return pp(t)


HUMAN = ('Paused: <pausedConnectionCount> Active: <activeConnectionCount> Auth denied: <authDeniedConnectionCount> Limited connections: <limitedConnectionCount> Removed(Clean): <removedConnectionGraceful> '
         'Removed(Broker): <removedConnectionBrokerSnapped> Removed(Client): <removedConnectionClientSnapped> IN: <bytesReceived>/s <packetsReceived> pkt/s <framesReceived> frames/s '
         'OUT: <bytesSent>/s <packetsSent> pkt/s <framesSent> frames/s')


class Human(C):
    """the scaling of byte counts is looked at on its own"""

    def on_call(self, eng, st, c):
        fn = eng.P.functions.get(c.fn)
        if fn is not None and not fn.get('m') and fn.get('b') and len(c.args) == 2 and 'ostream' in fn['p'][0]['t'] and fn['rt'] == 'void':
            self.helpers.setdefault(fn['id'], fn)
            loc = c.locs[0]
            k = ('fld', loc, '$text')
            s = st.copy()
            s.mem[k] = ('text', tuple(items(s.mem.get(k, ('str', '')))) + (('bytes', c.args[1]),))
            return [(s, ('void',), None)]
        return super().on_call(eng, st, c)


def human_formatter(ctx):
    o = overload(ctx, 'HumanStatFormatter::format', 'human')
    ctx.require(set(o) >= {'conn', 'map', 'process', 'pool', 'snapshot'}, 'the human formatter')
    cfg = Human()
    cfg.helpers = {}
    E = engine(ctx, cfg)

    def flat(st, name):
        s = ''
        for t in outtext(st):
            if t[0] == 'str':
                s += t[1]
            else:
                if t[0] == 'bytes':
                    t = t[1]
                s += '<%s>' % name(t)
        return s
    f = o['conn']
    stat = lambda t: statof(t)[1][1] if statof(t) and statof(t)[1][0] == 'str' else pp(t)[:60]
    for st, v, l in E.run(f)[0]:
        ctx.count('printed_forms')
        s = flat(st, stat)
        want = labels(HUMAN)
        got = labels(s)
        for k in sorted(set(want) | set(got)):
            ctx.count('attributions')
            if got.get(k) != want.get(k):
                ctx.violation('human ' + k, 'the human-readable form prints %s as "%s" (expected %s)' % (got.get(k), k, want.get(k)), loc_of(f), [s])
    f = o['process']
    for st, v, l in E.run(f)[0]:
        s = flat(st, lambda t: fieldname(single(t)))
        if labels(s) != {'CPU%': 'd_overall', 'USR%': 'd_user', 'SYS%': 'd_system', 'RSS': 'd_rssKB'}:
            ctx.violation('human process', 'the human-readable form reports process figures as %s' % s[:160], loc_of(f))
    cfg.unroll = 2
    f = o['map']
    for st, v, l in E.run(f)[0]:
        for line in flat(st, lambda t: stat(t) if statof(t) else 'key' if fieldname(t) == 'first' else pp(t)[:40]).split('\n'):
            if line and labels(line.replace('<key>: ', '', 1)) != labels(HUMAN) or line and not line.startswith('<key>: '):
                ctx.violation('human entry', 'the human-readable form does not print an entry with its own key: %s' % line[:120], loc_of(f))
    # scaling
    for fn in cfg.helpers.values():
        E2 = engine(ctx, C())
        for st, v, l in E2.run(fn)[0]:
            ctx.count('scalings')
            t = outtext(st)
            ok = len(t) == 2 and t[1][0] == 'str' and t[1][1].strip() in ('B', 'KB', 'MB', 'GB', 'TB')
            if ok:
                u = 1024 ** ('B', 'KB', 'MB', 'GB', 'TB').index(t[1][1].strip())
                dv = divisor(t[0], argval(fn, 1))
                ok = dv == u
            if not ok:
                ctx.violation('human scale', 'a byte count is scaled by something else than its unit: %s' % ' '.join(pp(x) for x in t)[:120], loc_of(fn), trace_lines(st)[:6])
        ctx.done(E2)
    ctx.done(E)


def divisor(t, arg):
    if t in arg:
        return 1
    n = [x for x in walkt(t) if isinstance(x, tuple) and x and x[0] in ('flt', 'float', 'int', 'fconst', 'num')]
    if t[0] in ('/', 'div', 'op', 'bin', 'fop', 'call') or True:
        k = 1
        for x in n:
            try:
                k *= float(x[1])
            except (TypeError, ValueError):
                return None
        return int(k) if k and any(y in arg for y in walkt(t)) else None


def walkt(t):
    yield t
    if isinstance(t, tuple):
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from walkt(x)


def labels(s):
    """{label: value name}: the words before a value, and the unit after it where there is no label"""
    out = {}
    sec = ''
    for m in re.finditer(r'(?:(IN|OUT): )?(?:([A-Za-z%][A-Za-z %()]*): )?<([^<>]*)>(/s| pkt/s| frames/s)?', s):
        sec = m.group(1) or sec
        k = m.group(2).strip() if m.group(2) else '%s%s' % (sec, m.group(4) or '')
        while k in out:
            k += ' again'
        out[k] = m.group(3)
    return out


# ---------------------------------------------------------------- StatsD
class Statsd(C):
    unroll = 1
    exact = False
    one = False         # the tables with their tags, not the metrics

    def on_call(self, eng, st, c):
        fn = eng.P.functions.get(c.fn)
        if self.one and fn and fn.get('b') and fn.get('cl') == NS + 'StatsDPublisher' and len(c.args) == 2 and 'ConnectionStats' in fn['p'][0]['t'] and 'vector' in fn['p'][1]['t']:
            return [(st.emit('pub', c.locs[0], c.args[1]), ('void',), None)]
        if self.one and c.bqn.endswith('StatsDPublisher::publish'):
            return [(st, ('void',), None)]
        if c.bqn.endswith('StatsDPublisher::sendMetric'):
            return [(st.emit('metric', c.args[0]), ('void',), None)]
        return super().on_call(eng, st, c)


def statsd(ctx):
    o = {}
    for f in ctx.fns('StatsDPublisher::publish'):
        t = f['p'][0]['t']
        o['pool' if 'PoolStats' in t else 'process' if 'ProcessStats' in t else 'conn' if 'ConnectionStats' in t else 'snapshot'] = f
    ctx.require(set(o) == {'pool', 'process', 'conn', 'snapshot'}, 'the StatsD publisher')
    E = engine(ctx, Statsd())

    def metrics(f):
        for st, v, l in E.run(f)[0]:
            yield st, [parts(e[1]) for e in st.tr if e[0] == 'metric']

    f = o['conn']
    lists = set()
    E.cfg.loop_events = True
    conn_paths = list(metrics(f))
    E.cfg.loop_events = False
    for st, ms in conn_paths:
        sent = set()
        for m in ms:
            ctx.count('metrics')
            ok = m is not None and len(m[0]) == 1
            if ok:
                n, v = m[0][0], m[2]
                ok = n == (statof(v)[1] if statof(v) else v[2] if v[0] == 'distributionValue' else None)
                sent.add((n, 'value' if statof(v) else 'latency'))
            if ok and m[1]:
                tg = [x for x in m[1] if x[0] != 'str']
                if lit([x if x[0] == 'str' else ('str', fieldname(x)) for x in m[1]]) != ',first=second' or len({x[1][1] for x in tg}) != 1 or f['p'][1]['n'] not in pp(tg[0]):
                    ctx.violation('statsd tags', 'the StatsD publisher does not send a tag as ,NAME=VALUE: %s' % lit(m[1])[:100], loc_of(f))
            if not ok:
                ctx.violation('statsd value', 'the StatsD publisher sends %s under another name' % (pp(m[2])[:80] if m else 'something'), loc_of(f), trace_lines(st)[:8])
        for e in st.tr:
            if e[0] != 'iter' or not listname(e[1]):
                continue
            n = ('ld', e[1], 0)
            lists.add(listname(e[1]))
            if listname(e[1]) == 'statsTypes' and (n, 'value') not in sent:
                ctx.violation('statsd value', 'the StatsD publisher leaves a statistic out', loc_of(f), trace_lines(st)[:8])
            if listname(e[1]) == 'distributionMetrics' and (n, 'latency') not in sent and not any(
                    mentions(a, lambda t: isinstance(t, tuple) and t and t[0] == 'distributionCount' and t[2] == n) for a in st.facts):
                ctx.violation('statsd latency', 'the StatsD publisher leaves a latency out although there are measurements', loc_of(f), trace_lines(st)[:8])
    for w in ('statsTypes', 'distributionMetrics'):
        if w not in lists:
            ctx.violation('statsd ' + w, 'the StatsD publisher does not go through all of %s' % w, loc_of(f))
    f = o['process']
    for st, ms in metrics(f):
        got = {lit(m[0]): fieldname(m[2]) for m in ms if m}
        ctx.count('metrics', len(ms))
        if got != PROC:
            ctx.violation('statsd process', 'the StatsD publisher sends process figures as %s' % got, loc_of(f))
    f = o['pool']
    full = False
    for st, ms in metrics(f):
        for m in ms:
            ctx.count('metrics')
            n = m and ''.join(x[1] if x[0] == 'str' else '<%s>' % fieldname(x) for x in m[0])
            want = {'spill_to_heap_count': None, 'pools_<d_bufferSize>_current': 'd_currentAllocation', 'pools_<d_bufferSize>_highest': 'd_highwaterMark'}
            ok = n in want and (fieldname(m[2]) == want[n] if want[n] else m[2] in argval(f, 1))
            full = full or len(ms) == 3
            if not ok:
                ctx.violation('statsd pools', 'the StatsD publisher sends %s as %s' % (pp(m[2])[:60] if m else '?', n), loc_of(f))
    if not full:
        ctx.violation('statsd pools', 'the StatsD publisher does not send current and highest use of each pool', loc_of(f))
    # the tables and their tags
    f = o['snapshot']
    want = {'overall': 'overall', 'vhost': 'vhost', 'source': 'sources', 'backend': 'backends'}
    got = {}
    E.cfg.one = True
    for st, ms in metrics(f):
        for e in st.tr:
            if e[0] != 'pub':
                continue
            loc = e[1]
            s = pp(loc)
            tab = None
            for n, pat in (('vhost', 'vhosts'), ('backend', 'backends'), ('source', 'sources'), ('overall', 'verall')):
                if pat in s:
                    tab = n
            tags = ''
            tv = tag_list(e[2])
            for a, b in tv or ():
                for x, sep in ((a, ','), (b, '=')):
                    tags += sep + (x[1] if x[0] == 'str' else 'key' if x == ('ld', ('fld', loc[1], 'first'), 0) else pp(x)[-40:])
            got.setdefault(tab, set()).add(tags if tv is not None else pp(e[2])[:80])
    for t, tag in want.items():
        w = ',rmqEndpointType=' + tag + {'overall': '', 'vhost': ',rmqVhostName=key'}.get(t, ',rmqEndpointHostname=key')
        for g in got.get(t, {'nothing'}):
            ctx.count('tagged_tables')
            if g != w:
                ctx.violation('statsd tags ' + t, 'the StatsD publisher sends the %s statistics with the tags "%s" (expected "%s")' % (t, g[:100], w), loc_of(f))
    ctx.done(E)


def tag_list(v):
    while v[0] == 'mk' and v[2] and v[2][0][0] in ('list', 'mk'):
        v = v[2][0]
    if v[0] == 'mk' and not v[2]:
        return []
    if v[0] != 'list':
        return None
    out = []
    for r in v[2]:
        d = {k[0] if isinstance(k, tuple) else k: x for k, x in r[2]} if r[0] == 'rec' else {}
        if set(d) != {'first', 'second'}:
            return None
        out.append((d['first'], d['second']))
    return out


def lit(i):
    return ''.join(x[1] if x[0] == 'str' else '<%s>' % pp(x) for x in i)


def parts(v):
    """amqpprox.NAME[,TAGS]:VALUE|TYPE -> (name items, tag items, value)"""
    i = list(items(v))
    if not i or i[0][0] != 'str' or not i[0][1].startswith('amqpprox.'):
        return None
    i[0] = ('str', i[0][1][9:])
    name, tags, val, cur = [], [], None, 'name'
    for x in i:
        if x[0] == 'str':
            s = x[1]
            while s:
                if cur == 'name':
                    p = min([q for q in (s.find(','), s.find(':')) if q >= 0] or [len(s)])
                    if s[:p]:
                        name.append(('str', s[:p]))
                    if p < len(s):
                        cur = 'tags' if s[p] == ',' else 'val'
                        if cur == 'tags':
                            tags.append(('str', ','))
                        s = s[p + 1:]
                    else:
                        s = ''
                elif cur == 'tags':
                    p = s.find(':')
                    if p >= 0:
                        tags.append(('str', s[:p]))
                        cur = 'val'
                        s = s[p + 1:]
                    else:
                        tags.append(('str', s))
                        s = ''
                else:
                    s = ''
        elif cur == 'name':
            name.append(x)
        elif cur == 'tags':
            tags.append(x)
        elif val is None:
            val = x[1] if x[0] == 'text-of' else x
    return (name, tags, val) if val is not None else None


class Lat(flow07.C):
    def on_call(self, eng, st, c):
        if c.bqn in (SS + '::addIngressLatency', SS + '::addEgressLatency'):
            return [(st.emit('lat', 'client' if 'Ingress' in c.name else 'broker'), ('void',), None)]
        return super().on_call(eng, st, c)


def latencies(ctx):
    """forwarding data that came from the client is a receive latency, from the broker a send latency"""
    cfg = Lat(ctx)
    E = Engine(ctx.P, cfg)
    cfg.bound_sizes(E)
    res = sessx.explore(E, sessx.public_entries(ctx, E))
    cfg.roles(res)
    n = 0
    for e, outs, thr in res:
        w = e.ts[:1] == ('write',)
        for st, v, l in outs:
            got = [x[1] for x in st.tr if x[0] == 'lat']
            if not w:
                if got:
                    ctx.violation('latency elsewhere', 'a forwarding latency is counted where nothing was written', None, trace_lines(st)[:8])
                continue
            if len(got) > 1:
                ctx.violation('latency twice', 'one write counts several forwarding latencies', None, trace_lines(st)[:8])
            if e.ts[2] in cfg.socks and e.ts[3] and e.ts[1] != e.ts[2]:      # C07: an open session writes what it read to the other side
                ctx.count('latency_paths')
                side = 'client' if e.ts[2] == cfg.client else 'broker'
                n += bool(got)
                if got and got[0] != side:
                    ctx.violation('latency of ' + side, 'the latency of forwarding data from the %s is counted for the other direction' % side, None, trace_lines(st)[:8])
    ctx.require(n, 'writes of forwarded data')
    ctx.done(E)


def run(ctx):
    ctx.rule('collect adds each session counter to the statistic of its name and direction, once per table (vhost, broker, source if enabled, overall); deletedSession takes back exactly that')
    ctx.rule('a report is the current snapshot less the previous one, name by name and entry by entry; counts of sessions are reported as they are')
    ctx.rule('each publisher prints each statistic under its own name')
    ctx.assume('A session that ended does not count any further (C07, C18), so that the counters read when it is removed are those last added.')
    ctx.names = name_lists(ctx)
    counters(ctx)
    cur = collector(ctx)
    arithmetic(ctx, cur)
    basics(ctx, cur)
    json_formatter(ctx)
    human_formatter(ctx)
    statsd(ctx)
    latencies(ctx)
