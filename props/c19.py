"""C19: routing follows mapping, then default farm, then refusal."""
from checklib import *
from tab import *

EXPLANATION = ('Abstract interpretation of the routing decision and of the stores it reads (mappings, default farm, farms, '
               'backends); every abstract path (outcome, route handed out, stores consulted) is compared with the decision table.')
ST = 'SessionState::ConnectionStatus::'


class C(EffectCfg):
    def boundary(self, eng, st, c):
        if c.name == 'allowNewConnectionForVhost':
            return [(st.emit('limit?', c.args[0]), ('sym', 'limit'), None)]
        if c.name == 'getFarmByName':
            s = st.emit('farm?', c.args[0])
            eng.throw(s.emit('nofarm', c.args[0]), 'std::runtime_error', ('unk', 'e'), c.node, c.fr)
            return [(s.emit('gotfarm', c.args[0]), ('sym', 'farm', c.args[0]), ('obj', 'farm', c.args[0]))]
        if c.name == 'lookup' and 'BackendStore' in c.bqn:
            return [(st.emit('lookup', c.args[0]), ('sym', 'backend', c.args[0]), None)]
        if c.name in ('backendSet', 'backendSelector') and 'Farm' in c.bqn:
            return [(st, ('sym', c.name, eng.addr(c.recvloc)), None)]
        if c.bqn.endswith('ConnectionManager::ConnectionManager'):
            return [(st, ('mk', 'CM', c.args), None)]
        if c.bqn.endswith('BackendSet::BackendSet') or c.name == 'make_shared' and 'BackendSet' in str(c.node.get('ta')):
            return [(st, ('mk', 'BS', c.args), None)]
        return None


def flat(v):
    """leaves of nested list/vector construction"""
    if v[0] in ('list', 'mk') and len(v) > 2 and v[1] != 'CM':
        out = []
        for x in v[2]:
            if x[0] == 'mk' and 'allocator' in x[1]:
                continue
            out += flat(x)
        return out
    return [v]


def run(ctx):
    ctx.rule('LIMIT iff the limiter refuses; else mapping (farm or backend), else default farm, else NO_FARM; unknown farm ERROR_FARM, unknown backend NO_BACKEND; a route is produced only with SUCCESS and only for that destination')
    ctx.rule('stores: map/unmap/default/insert/remove/lookup write and read the entry named by their argument')
    E = Engine(ctx.P, C())
    gv = ctx.fn('SessionState::getVirtualHost')
    vf = {field_of(v) for st, v, l in E.run(gv)[0]}
    ctx.require(len(vf) == 1 and None not in vf, 'virtual host accessor')
    vfield = vf.pop()

    # setters ---------------------------------------------------------------------
    def effects(q):
        fn = ctx.fn(q)
        outs, thr = E.run(fn)
        ctx.count('paths', len(outs) + len(thr))
        return fn, outs, thr

    def bad(fn, key, text, st, extra=()):
        ctx.violation(fn['qn'].replace(NS, '') + ': ' + key, fn['qn'].replace(NS, '') + ': ' + text, loc_of(fn), trace_lines(st, extra))

    maps = set()
    for q, flag in (('ResourceMapper::mapVhostToFarm', TRUE), ('ResourceMapper::mapVhostToBackend', FALSE)):
        fn, outs, thr = effects(q)
        for st, v, l in outs:
            ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut')]
            ok = len(ev) == 1 and ev[0][0] == 'set' and ev[0][2] in argval(fn, 0)
            if ok:
                r = recd(ev[0][4])
                ok = r.get('first') == flag and r.get('second') in argval(fn, 1)
                maps.add(ev[0][1])
            if not ok:
                bad(fn, 'mapping', 'does not record the mapping it was given', st)
    fn, outs, thr = effects('ResourceMapper::unmapVhost')
    for st, v, l in outs:
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut')]
        absent = any(a[0] == 'has' and x is False and a[2] in argval(fn, 0) for a, x in st.facts.items()) and not ev
        if not absent and not (len(ev) == 1 and ev[0][0] == 'erase' and ev[0][1] in maps and ev[0][2] in argval(fn, 0)):
            bad(fn, 'unmap', 'does not remove exactly the mapping it was given', st)
    fn, outs, thr = effects('ConnectionSelector::setDefaultFarm')
    dflt = set()
    for st, v, l in outs:
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut')]
        if len(ev) == 1 and ev[0][0] == 'assign' and ev[0][3] in argval(fn, 0):
            dflt.add(ev[0][1])
        else:
            bad(fn, 'default', 'does not record the default farm it was given', st)
    fn, outs, thr = effects('ConnectionSelector::unsetDefaultFarm')
    for st, v, l in outs:
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut')]
        if not (len(ev) == 1 and ev[0][1] in dflt and (ev[0][0] == 'assign' and ev[0][3] == ('str', '') or ev[0][0] == 'mut' and ev[0][2] == 'clear')):
            bad(fn, 'default', 'does not clear the default farm', st)
    if len(maps) != 1 or len(dflt) != 1:
        ctx.require(ctx.viol, 'mapping and default-farm storage')
        ctx.done(E)
        return
    mfield, dfield = maps.pop(), dflt.pop()

    # the decision -----------------------------------------------------------------
    fn, outs, thr = effects('ConnectionSelector::acquireConnection')
    ctx.require(len(outs) >= 5, 'paths of acquireConnection')
    sp = [p for p in fn['p'] if 'SessionState' in p['t']]
    op = [p for p in fn['p'] if p not in sp]
    ctx.require(len(sp) == 1 and len(op) == 1, 'parameters of acquireConnection')
    vh = ('ld', ('fld', ('obj', sp[0]['n']), vfield), 0)
    for st, t, v, w in thr:
        bad(fn, 'throws', 'can fail with an exception (%s)' % t, st)
    for st, v, l in outs:
        ctx.count('decision_paths')
        hasm = entry = None
        for a, x in st.facts.items():
            if a[0] == 'has' and a[2] == vh and pp(a[1]).endswith('.' + mfield):
                hasm, entry = x, a[1]
        dloc = ('ld', ('fld', ('obj', 'this'), dfield), 0)
        dempty = E.decide(st, ('empty', dloc))
        limit = E.decide(st, ('t', ('sym', 'limit')))
        lim = [e for e in st.tr if e[0] == 'limit?']
        name = v[1].rsplit('::', 1)[-1] if v[0] == 'enum' else pp(v)
        route = E.load(st, ('deref', ('arg', op[0]['n'])))
        if route[0] == 'ptr':
            route = E.load(st, route[1])
        untouched = route == ('ld', ('deref', ('arg', op[0]['n'])), 0)
        got = [e for e in st.tr if e[0] in ('gotfarm', 'nofarm', 'lookup')]
        want = None
        if len(lim) != 1 or lim[0][1] != vh or limit is None:
            bad(fn, 'limit', 'decides without asking the limiter once for the session\'s virtual host', st)
            continue
        dest = None
        if not limit:
            want = 'LIMIT'
        elif hasm is None:
            bad(fn, 'mapping', 'decides without looking up the mapping of the session\'s virtual host', st)
            continue
        else:
            if hasm:
                base = ('mat', entry, vh)
                isf = ('ld', ('fld', base, 'first'), 0)
                dest = ('ld', ('fld', base, 'second'), 0)
                f = E.decide(st, ('t', isf))
                if f is None:
                    bad(fn, 'kind', 'decides without looking at the kind of the mapping', st)
                    continue
            else:
                if dempty is None:
                    bad(fn, 'default', 'decides without looking at the default farm', st)
                    continue
                f, dest = True, dloc
            if not hasm and dempty:
                want = 'NO_FARM'
            elif f:
                fa = [e for e in got]
                if len(fa) != 1 or fa[0][0] == 'lookup' or fa[0][1] != dest:
                    bad(fn, 'destination', 'does not look up the farm it has to route to', st)
                    continue
                want = 'SUCCESS' if fa[0][0] == 'gotfarm' else 'ERROR_FARM'
            else:
                if len(got) != 1 or got[0][0] != 'lookup' or got[0][1] != dest:
                    bad(fn, 'destination', 'does not look up the broker it has to route to', st)
                    continue
                b = E.decide(st, ('t', ('sym', 'backend', dest)))
                if b is None:
                    bad(fn, 'missing broker', 'routes without checking that the broker exists', st)
                    continue
                want = 'SUCCESS' if b else 'NO_BACKEND'
        ctx.sample('%s: %s' % (name, ppfacts(st)[:300]))
        if name != want:
            bad(fn, 'outcome', 'outcome %s where %s is due' % (name, want), st)
        if (name == 'SUCCESS') == untouched:
            bad(fn, 'route', 'a route is handed out with %s' % name if not untouched else 'no route is handed out with SUCCESS', st)
        elif name == 'SUCCESS' and want == 'SUCCESS':
            ok = False
            if route[0] == 'mk' and route[1] == 'CM' and len(route[2]) == 2:
                bs, sel = route[2]
                if f:
                    fl = ('ptr', ('obj', 'farm', dest))
                    ok = bs == ('sym', 'backendSet', fl) and sel == ('sym', 'backendSelector', fl)
                else:
                    if bs[0] == 'ptr':
                        bs = E.load(st, bs[1])
                    ok = sel == NULL and bs[0] == 'mk' and bs[1] == 'BS' and flat(bs) == [('sym', 'backend', dest)]
            if not ok:
                bad(fn, 'route', 'the route handed out is not that of the destination', st, ['route ' + pp(route)[:300]])

    # stores ---------------------------------------------------------------------------
    class C2(EffectCfg):
        pass
    E2 = Engine(ctx.P, C2())

    def eff2(q):
        fn = ctx.fn(q)
        outs, thr = E2.run(fn)
        ctx.count('paths', len(outs) + len(thr))
        return fn, outs, thr

    fn, outs, thr = eff2('FarmStore::getFarmByName')
    fm = None
    for st, v, l in outs:
        h = [(a, x) for a, x in st.facts.items() if a[0] == 'has']
        ok = len(h) == 1 and h[0][1] is True and h[0][0][2] in argval(fn, 0) and l is not None
        if ok:
            fm = field_of(h[0][0][1])
            ok = l == ('deref', ('ld', ('mat', h[0][0][1], h[0][0][2]), 0))
        if not ok:
            bad(fn, 'lookup', 'returns something else than the farm of that name', st)
    ok = any(x is False and a[0] == 'has' and a[2] in argval(fn, 0) for st, t, v, w in thr for a, x in st.facts.items()) and \
        all(E2.is_a(t, 'std::runtime_error') for st, t, v, w in thr)
    if not ok:
        ctx.violation('FarmStore::getFarmByName: missing', 'FarmStore::getFarmByName does not report a missing farm as std::runtime_error', loc_of(fn))
    fn, outs, thr = eff2('FarmStore::removeFarmByName')
    for st, v, l in outs:
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut') and e[1] == fm]
        absent = not ev and any(a[0] == 'has' and field_of(a[1]) == fm and a[2] in argval(fn, 0) and x is False for a, x in st.facts.items())
        if not (absent or len(ev) == 1 and ev[0][0] == 'erase' and ev[0][2] in argval(fn, 0)):
            bad(fn, 'remove', 'does not remove exactly the farm it was given', st)
    fn, outs, thr = eff2('FarmStore::addFarm')
    for st, v, l in outs:
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut') and e[1] == fm]
        if len(ev) == 2 and ev[0][0] == 'erase' and ev[0][2] == ev[1][2]:
            ev = ev[1:]  # the older one is taken out first
        if not (len(ev) == 1 and ev[0][0] == 'set' and ev[0][4] in argval(fn, 0) and
                mentions(ev[0][2], lambda t: t in argval(fn, 0))):
            bad(fn, 'add', 'does not store the farm under its name (replacing an older one)', st)
    fn, outs, thr = eff2('BackendStore::lookup')
    bm = None
    for st, v, l in outs:
        h = [(a, x) for a, x in st.facts.items() if a[0] == 'has' and a[2] in argval(fn, 0)]
        ok = len(h) == 1
        if ok:
            bm = field_of(h[0][0][1])
            ok = v == NULL if not h[0][1] else v == ('ptr', ('mat', h[0][0][1], h[0][0][2]))
        if not ok:
            bad(fn, 'lookup', 'returns something else than the broker of that name (or nothing when there is none)', st)
    fn, outs, thr = eff2('BackendStore::insert')
    for st, v, l in outs:
        h = [x for a, x in st.facts.items() if a[0] == 'has']
        had = [x for a, x in st.facts.items() if a[0] == 'had']
        h = had or h
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut')]
        if h == [True]:
            ok = not ev and num(v) not in (0, None)
        else:
            ok = h == [False] and len(ev) == 1 and ev[0][0] == 'set' and ev[0][1] == bm and ev[0][4] in argval(fn, 0) and num(v) == 0
        if not ok:
            bad(fn, 'insert', 'does not add exactly a broker of a new name', st, ['returns ' + pp(v)])
    fn, outs, thr = eff2('BackendStore::remove')
    for st, v, l in outs:
        h = [st.facts.get(('had', a[1], a[2]), x) for a, x in st.facts.items() if a[0] == 'has' and a[2] in argval(fn, 0)]
        ev = [e for e in st.tr if e[0] in ('set', 'erase', 'assign', 'mut') and e[1] == bm]
        if h and h[0]:
            ok = len(ev) == 1 and ev[0][0] == 'erase' and ev[0][1] == bm and ev[0][2] in argval(fn, 0) and num(v) == 0
        else:
            ok = h == [False] and not ev and num(v) not in (0, None)
        if not ok:
            bad(fn, 'remove', 'does not remove exactly the broker it was given', st, ['returns ' + pp(v)])
    ctx.done(E)
    ctx.done(E2)
