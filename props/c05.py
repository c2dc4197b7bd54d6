"""C05: connection rate limits are enforced; alarm-only limits never block."""
from checklib import *
from tab import *

EXPLANATION = ('Interprocedural abstract interpretation of every mutator and of the admission decision of the '
               'connection limiter manager; every abstract path is compared with the decision table of the property. '
               'The containers\' roles (enforced/alarm-only, specific/default) are taken from what the public setters write.')
CLS = 'ConnectionLimiterManager'
FW = NS + 'FixedWindowConnectionRateLimiter'


class C(Cfg):
    def __init__(self):
        self.maps = None

    def on_call(self, eng, st, c):
        if c.name == 'allowNewConnection':
            v = c.recv
            recv = c.recvloc
            s = st.emit('admit?', self.desc(eng, st, eng.addr(recv) if recv else v))
            n = sum(1 for e in s.tr if e[0] == 'admit?')
            return [(s, ('sym', 'admit', n), None)]
        if c.name == 'toString' or c.bqn.startswith('boost::log'):
            return [(st, ('unk', c.name), None)]
        if c.recvloc is not None and c.name in ('clear', 'extract', 'merge', 'swap') \
                and field_of(c.recvloc) and ('map' in c.bqn):
            return [(st.emit(c.name, field_of(c.recvloc)), ('unk', c.name), None)]
        return None

    def desc(self, eng, st, v):
        """what limiter a value denotes"""
        if v[0] == 'ptr':
            x = eng.load(st, v[1])
            if x[0] == 'mk' and x[1] == FW:
                return ('new', x[2])
            if x[0] == 'rec' and x[1][0] == 'mk' and x[1][1] == FW:
                return ('newrec', x[1][2])
        return ('val', v)

    def on_erase(self, eng, st, c, m, k):
        f = field_of(c.recvloc)
        if f is None:
            return st
        if k[0] == 'find':
            return st.emit('erase', f, 'key', k[2], None)
        if k[0] in ('iter', 'begin'):
            l = ('fld', ('fld', eng.deref(st, k), 'second'), 'first')
            at, p = eng.atom_truth(eng.load(st, l))
            d = eng.decide(st, at)
            return st.emit('erase', f, 'iter', (), None if d is None else (d == p))
        return st.emit('erase', f, 'key', k, None)

    def on_store(self, eng, st, loc, val, node, fr):
        e = elem_of(loc)
        if e:
            f, kind, key, path = e
            if val[0] == 'list' or (val[0] == 'rec'):
                pass
            flag = None
            if kind == 'elem' or path:
                base = loc
                for _ in path:
                    base = base[1]
                for l in (('fld', ('fld', base, 'second'), 'first'), ('fld', base, 'first')):
                    at, p = eng.atom_truth(eng.load(st, l))
                    d = eng.decide(st, at)
                    if d is not None:
                        flag = d == p
            return st.emit('set', f, kind, key, path, self.value(eng, st, val), flag)
        f = field_of(loc)
        if f and loc[0] == 'fld':
            return st.emit('assign', f, val)
        return st

    def value(self, eng, st, v):
        if v[0] == 'rec':
            d = dict(v[2])
            a, b = d.get(('first',)), d.get(('second',))
            if a is not None and b is not None:
                return ('pair', a, self.desc(eng, st, b))
        if v[0] in ('list', 'mk') and len(v[2]) == 2:
            return ('pair', v[2][0], self.desc(eng, st, v[2][1]))
        return self.desc(eng, st, v)


def truth(v):
    return {('int', 0): False, ('int', 1): True}.get(v)


def run(ctx):
    ctx.rule('each setter writes only its own container/default, with the flag and limit of the property')
    ctx.rule('allowNewConnectionForVhost: answer == verdict of exactly one query of the applicable enforced limiter (own, else a fresh default), true when none; alarm-only queried but without influence')
    ctx.assume('std::map/unordered_map/optional/shared_ptr semantics; limiter objects are only reachable through the manager')
    E = Engine(ctx.P, C())

    def go(m):
        fn = ctx.fn(CLS + '::' + m)
        out, thr = E.run(fn)
        ctx.count('paths', len(out))
        return fn, out

    def evs(st):
        return [e for e in st.tr]

    def is_arg(v, fn, i):
        p = fn['p'][i]
        return v in (('arg', p['n']), ('ld', ('obj', p['n']), 0))

    roles = {}
    for kind, add, setd, rem, remd, get, getd in (
            ('enforced', 'addConnectionRateLimiter', 'setDefaultConnectionRateLimit', 'removeConnectionRateLimiter',
             'removeDefaultConnectionRateLimit', 'getConnectionRateLimiter', 'getDefaultConnectionRateLimit'),
            ('alarm', 'addAlarmOnlyConnectionRateLimiter', 'setAlarmOnlyDefaultConnectionRateLimit', 'removeAlarmOnlyConnectionRateLimiter',
             'removeAlarmOnlyDefaultConnectionRateLimit', 'getAlarmOnlyConnectionRateLimiter', 'getAlarmOnlyDefaultConnectionRateLimit')):
        # role discovery -----------------------------------------------------
        fn, outs = go(add)
        maps = set()
        for st, v, l in outs:
            for e in evs(st):
                if e[0] in ('set',):
                    maps.add(e[1])
        if len(maps) != 1:
            ctx.violation('%s writes one limiter map' % add, '%s::%s writes %s limiter containers' % (CLS, add, sorted(maps)), loc_of(fn))
            continue
        m = maps.pop()
        for st, v, l in outs:
            for e in evs(st):
                ok = (e[0] == 'set' and e[2] == 'key' and is_arg(e[3], fn, 0) and e[4] == () and
                      e[5][0] == 'pair' and truth(e[5][1]) is True and e[5][2][0].startswith('new') and
                      is_arg(limit_arg(e[5][2][1]), fn, 1))
                ctx.count('effects')
                if not ok:
                    ctx.violation('%s effect' % add, '%s does not record a virtual-host specific limiter of the given limit: %s' % (add, pp(e)), loc_of(fn), trace_lines(st))
            if sum(e[0] in ('set',) for e in evs(st)) != 1:
                ctx.violation('%s effect' % add, '%s does not record the limiter' % add, loc_of(fn), trace_lines(st))
        fn, outs = go(setd)
        dfl = set()
        for st, v, l in outs:
            for e in evs(st):
                if e[0] == 'assign':
                    dfl.add(e[1])
                    if not is_arg(e[2], fn, 0):
                        ctx.violation('%s value' % setd, '%s stores something else than the given limit' % setd, loc_of(fn), trace_lines(st))
        if len(dfl) != 1:
            ctx.violation('%s writes one default' % setd, '%s writes %s' % (setd, sorted(dfl)), loc_of(fn))
            continue
        d = dfl.pop()
        if (m, d) in roles.values() or any(m == x[0] or d == x[1] for x in roles.values()):
            ctx.violation('%s limits share storage' % kind, 'enforced and alarm-only limits use the same storage (%s, %s)' % (m, d), loc_of(fn))
            continue
        roles[kind] = (m, d)
        n = 0
        full = False
        for st, v, l in outs:
            for e in evs(st):
                if e[0] == 'assign':
                    continue
                n += 1
                full = True
                ok = False
                if e[0] == 'set' and e[1] == m:
                    # replaces a default-derived limiter by one of the new limit
                    val = e[5]
                    if e[4][-1:] == ('second',) and val[0].startswith('new'):
                        ok = e[6] is False and is_arg(limit_arg(val[1]), fn, 0)
                    elif val[0] == 'pair':
                        ok = e[6] is False and truth(val[1]) is False and is_arg(limit_arg(val[2][1]), fn, 0)
                elif e[0] == 'erase' and e[1] == m and e[2] == 'iter':
                    ok = e[4] is False
                if not ok:
                    ctx.violation('%s touches limiter' % setd, '%s changes a limiter it must not change (or not to the new default): %s' % (setd, pp(e)[:300]), loc_of(fn), trace_lines(st))
        if not full:
            ctx.violation('%s refresh' % setd, '%s leaves limiters made from the previous default in force' % setd, loc_of(fn))
        # remove specific ---------------------------------------------------------
        fn, outs = go(rem)
        for st, v, l in outs:
            es = [e for e in evs(st)]
            ctx.count('effects', len(es))
            bad = [e for e in es if e[1] != m]
            if bad:
                ctx.violation('%s touches other state' % rem, '%s changes %s' % (rem, bad[0][1]), loc_of(fn), trace_lines(st))
            es = [e for e in es if e[1] == m]
            last = es[-1] if es else None
            ok = False
            if last is None:
                # nothing to remove: only if it is known to be absent
                ok = any(a[0] == 'has' and not val and field_of(a[1]) == m for a, val in st.facts.items())
            elif last[0] == 'erase' and last[2] == 'key' and is_arg(last[3], fn, 0):
                ok = True
            elif last[0] == 'set' and last[2] == 'key' and is_arg(last[3], fn, 0) and last[5][0] == 'pair':
                ok = truth(last[5][1]) is False and last[5][2][0].startswith('new') and \
                    field_of(limit_arg(last[5][2][1])) == d
                at, p = E.atom_truth(('ld', ('fld', ('obj', 'this'), d), 0))
                if E.decide(st, at) != p:
                    ok = False
            if not ok:
                ctx.violation('%s effect' % rem, '%s does not drop the specific limit: %s' % (rem, pp(last)[:300] if last else 'no effect'), loc_of(fn), trace_lines(st))
        # remove default -------------------------------------------------------------
        fn, outs = go(remd)
        er = False
        for st, v, l in outs:
            rs = False
            for e in evs(st):
                ctx.count('effects')
                if e[0] == 'assign' and e[1] == d and e[2] == NULL:
                    rs = True
                elif e[0] == 'erase' and e[1] == m and e[2] == 'iter' and e[4] is False:
                    er = True
                elif e[0] == 'assign' and e[1] == m:
                    er = True
                else:
                    ctx.violation('%s effect' % remd, '%s drops or changes something that is not a default limit: %s' % (remd, pp(e)[:300]), loc_of(fn), trace_lines(st))
            if not rs:
                ctx.violation('%s reset' % remd, '%s leaves the default in force' % remd, loc_of(fn), trace_lines(st))
        if not er:
            ctx.violation('%s limiters' % remd, '%s leaves limiters made from the default in force' % remd, loc_of(fn))
        # getters -----------------------------------------------------------------------
        fn, outs = go(get)
        for st, v, l in outs:
            want = None
            for a, val in st.facts.items():
                if a[0] == 'has' and field_of(a[1]) == m:
                    want = val
            e = elem_of(v[1]) if v[0] == 'ld' else None
            ok = (want is True and e is not None and e[0] == m and e[3] == ('second',) and is_arg(e[2], fn, 0)) or (want is False and v == NULL)
            if not ok:
                ctx.violation('%s result' % get, '%s returns something else than the recorded limiter' % get, loc_of(fn), trace_lines(st, ['returns ' + pp(v)[:200]]))
        fn, outs = go(getd)
        for st, v, l in outs:
            if field_of(v) != d:
                ctx.violation('%s result' % getd, '%s returns something else than the default' % getd, loc_of(fn))
    if len(roles) != 2:
        ctx.done(E)
        return
    me, de = roles['enforced']
    ma, da = roles['alarm']
    fn, outs = go('allowNewConnectionForVhost')
    ctx.require(outs, 'paths of allowNewConnectionForVhost')
    vh = ('ld', ('obj', fn['p'][0]['n']), 0)
    mat = lambda mm: ('ld', ('fld', ('mat', ('ld', ('fld', ('obj', 'this'), mm), 0), vh), 'second'), 0)
    for st, v, l in outs:
        has = {}
        for a, val in st.facts.items():
            if a[0] == 'has' and val is not None:
                has[field_of(a[1])] = val
        sets = [e for e in evs(st) if e[0] in ('set', 'erase', 'assign', 'clear', 'extract', 'merge', 'swap')]
        setm = {}
        for e in sets:
            ctx.count('effects')
            ok = e[0] == 'set' and e[1] in (me, ma) and e[2] == 'key' and e[3] == vh and e[4] == () and \
                e[5][0] == 'pair' and truth(e[5][1]) is False and e[5][2][0].startswith('new') and \
                field_of(limit_arg(e[5][2][1])) == (de if e[1] == me else da)
            if ok and e[1] in setm:
                ok = False
            setm[e[1]] = e
            if not ok:
                ctx.violation('admission changes limits', 'the admission decision changes the configured limits: %s' % pp(e)[:300], loc_of(fn), trace_lines(st))
        # applicable limiter per role
        app = {}
        und = None
        for mm, dd in ((me, de), (ma, da)):
            prehas = pre_has(E, st, mm, vh)
            dset = E.decide(st, ('t', ('ld', ('fld', ('obj', 'this'), dd), 0)))
            if mm in setm:
                if prehas is not False:
                    ctx.violation('default replaces specific', 'a default limiter can replace the limiter recorded for a virtual host (%s)' % mm, loc_of(fn), trace_lines(st))
                app[mm] = 'default'
            elif prehas is True:
                app[mm] = 'own'
            elif prehas is False:
                app[mm] = 'none' if dset is False else ('unpopulated' if dset else '?')
            else:
                app[mm] = '?'
        qs = [e for e in evs(st) if e[0] == 'admit?']
        byrole = {me: [], ma: []}
        for i, e in enumerate(qs):
            dsc = e[1]
            r = None
            if dsc[0].startswith('new'):
                r = {de: me, da: ma}.get(field_of(limit_arg(dsc[1])))
            else:
                el = elem_of(dsc[1][1] if dsc[1][0] == 'ld' else dsc[1])
                if el and el[2] == vh:
                    r = el[0]
            if r not in byrole:
                ctx.violation('unknown limiter consulted', 'the admission decision consults %s' % pp(dsc)[:200], loc_of(fn), trace_lines(st))
                continue
            byrole[r].append(i + 1)
        ctx.count('decision_paths')
        k = app[me]
        # the answer
        if k in ('own', 'default'):
            if len(byrole[me]) != 1:
                ctx.violation('enforced limiter consulted once', 'the enforced limiter (%s) of the virtual host is consulted %d times' % (k, len(byrole[me])), loc_of(fn), trace_lines(st))
                continue
            sym = ('sym', 'admit', byrole[me][0])
            t = truth(v)
            dec = E.decide(st, ('t', sym))
            good = v == sym or (t is not None and dec is not None and t == dec)
            if not good:
                ctx.violation('answer differs from enforced limiter', 'the answer for a virtual host with an enforced limit (%s) is not the verdict of its limiter' % k, loc_of(fn), trace_lines(st, ['returns ' + pp(v)]))
        elif k == 'none':
            if byrole[me]:
                ctx.violation('absent limiter consulted', 'an enforced limiter is consulted although none applies', loc_of(fn), trace_lines(st))
            if truth(v) is not True:
                ctx.violation('refused without enforced limit', 'a connection is refused although no enforced limit applies', loc_of(fn), trace_lines(st, ['returns ' + pp(v)]))
        else:
            ctx.violation('enforced limit not looked up', 'the answer is given without establishing which enforced limit applies (%s)' % k, loc_of(fn), trace_lines(st, ['returns ' + pp(v)]))
        ka = app[ma]
        if ka in ('own', 'default') and len(byrole[ma]) != 1 and not (truth(v) is False):
            ctx.violation('alarm limiter consulted once', 'the alarm-only limiter of the virtual host is consulted %d times' % len(byrole[ma]), loc_of(fn), trace_lines(st))
        ctx.sample('%s/%s -> %s' % (k, ka, pp(v)))
    ctx.done(E)


def limit_arg(args):
    """the limit passed to a new limiter"""
    for a in args:
        return a
    return ('unk', 'noarg')


def pre_has(E, st, mm, vh):
    """was vh in the map on entry?  (m[k] makes it present afterwards)"""
    m = ('ld', ('fld', ('obj', 'this'), mm), 0)
    if ('had', m, vh) in st.facts:
        return st.facts[('had', m, vh)]
    return st.facts.get(('has', m, vh))
