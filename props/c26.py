"""C26: name resolution answers every request once, with valid results only."""
from checklib import *
from conts import *
from tab import *

EXPLANATION = ('Path analysis of every instantiation of the resolve operation, composed with the handlers it registers (run from the state of their registration, with their captured values): '
               'how often and with what the callback is invoked, and what is remembered under which key.')
K = lambda s: ('keep', s)
T = ('obj', 'this')


class C(ContCfg):
    cont_event = True

    def inline(self, eng, fn):
        return 'amqpprox_dnsresolver.' in fn['file']

    def boundary(self, eng, st, c):
        if c.name == 'operator()' and c.node.get('o') is not None and not c.bqn.startswith('lambda'):
            if K('callback') in list(subterms(c.recv)):
                return [(st.emit('answer', c.args), ('void',), None)]
            if 'function' in c.bqn:
                s, t = eng.site(st.emit('override', c.args), c.fr, c.node)
                if c.args and c.args[0][0] == 'ptr':
                    s = eng.havoc(s, c.args[0][1], (t, 1))
                return [(s, ('call', 'override', (), (), t), None)]
        return super().boundary(eng, st, c)


def key_ok(k):
    d = recd(k)
    return d.get('first') == K('host') and d.get('second') == K('service')


def run(ctx):
    ctx.rule('resolve: every path hands the callback over exactly once, to post or to the asynchronous resolver, and never calls it itself')
    ctx.rule('handlers: every path calls the callback exactly once, with the error and result it got; a remembered answer is the one remembered for the same host and service')
    ctx.rule('cache: written only on success, under (host, service), with the result; the cleanup only empties it')
    fs = ctx.fns('DNSResolver::resolve')
    ctx.require(fs, 'instantiations of DNSResolver::resolve')
    rec = ctx.record('DNSResolver')
    cache = [f['n'] for f in rec['fields'] if 'map' in f['t'].lower() or 'CacheType' in f['t']]
    ctx.require(len(cache) == 1, 'the cache of the resolver')
    cache = cache[0]
    for f in fs:
        E = Engine(ctx.P, C())
        outs, thr = E.run(f, args=[K('host'), K('service'), K('callback')])
        ctx.count('instantiations')
        for st, v, l in outs:
            ctx.count('resolve_paths')
            bad = lambda k, t, s=st: ctx.violation('resolve: ' + k, t, loc_of(f), trace_lines(s))
            if any(e[0] == 'answer' for e in st.tr):
                bad('inside', 'the callback is called from inside resolve()')
            hand = [(e, k) for e in st.tr if e[0] == 'cont' for k in e[2] if K('callback') in list(subterms(k))]
            if len(hand) != 1:
                bad('handed over', 'the callback is handed over %d times' % len(hand))
                continue
            e, k = hand[0]
            how = e[1].rsplit('::', 1)[-1]
            if how not in ('post', 'async_resolve', 'defer'):
                bad('how', 'the callback is handed over through %s, which may call it from inside resolve()' % how)
            fn = next((ctx.P.functions[i] for i in k[1] if i in ctx.P.functions), None) if k[0] == 'clos' else None
            ctx.require(fn is not None, 'the handler registered by resolve')
            for d, m, x in k[2]:
                if m == 'ref':
                    bad('captured by reference', 'the handler refers to the stack frame of resolve()')
            base = len(st.tr)
            for s2, v2, l2 in E.run(fn, this=k[3], st=st.copy(), caps=k[2])[0]:
                ctx.count('handler_paths')
                ans = [x for x in s2.tr[base:] if x[0] == 'answer']
                if len(ans) != 1:
                    bad('answers', 'on a path of the handler the callback is called %d times' % len(ans), s2)
                    continue
                ec, res = ans[0][1][0], ans[0][1][1]
                sets = [x for x in s2.tr if x[0] == 'set' and x[1] == cache]
                oth = [x for x in s2.tr if x[0] in ('mut', 'erase', 'assign') and x[1] == cache]
                over = [x for x in s2.tr if x[0] == 'override']
                if how == 'async_resolve':
                    pe = argval(fn, 0)
                    if ec not in pe:
                        bad('error', 'the callback is not told the outcome of the resolution: %s' % pp(ec), s2)
                elif over:
                    if over[0][1][1:] != (K('host'), K('service')):
                        bad('override', 'another name than the one asked for is resolved', s2)
                    if not (ec[0] == 'call' and ec[1] == 'override'):
                        bad('error', 'the callback is not told the outcome of the resolution: %s' % pp(ec), s2)
                else:
                    # an answer out of the cache
                    if ec != ('mk', 'boost::system::error_code', ()):
                        bad('remembered error', 'a remembered answer is reported with %s' % pp(ec), s2)
                    ok = any(x and x[0] == 'ld' and cached(x[1], cache) for x in subterms(res))
                    has = any(a[0] in ('has', 'had') and b is True and field_of(a[1]) == cache and key_ok(a[2]) for a, b in s2.facts.items())
                    if not ok or not has:
                        bad('remembered for another', 'the answer given without resolving is not the one remembered for this host and service: %s' % pp(res)[:150], s2)
                for x in sets:
                    if not key_ok(x[2]):
                        bad('key', 'the answer is remembered under %s' % pp(x[2])[:120], s2)
                    if x[-1] != res:
                        bad('value', 'what is remembered is not what was answered: %s' % pp(x[-1])[:120], s2)
                    if E.decide(s2, ('t', ec)) is not False:
                        bad('failure remembered', 'an answer is remembered although the resolution may have failed', s2)
                for x in oth:
                    bad('cache', 'resolving changes the cache otherwise than by remembering the answer', s2)
        ctx.done(E)
    # what is asked of the resolver is the name asked for
    query(ctx, fs)
    for q in ('setCachedResolution', 'clearCachedResolution'):
        f = ctx.fn('DNSResolver::' + q)
        E = Engine(ctx.P, C())
        for st, v, l in E.run(f, args=[K('host'), K('service'), K('res')][:len(f['p'])])[0]:
            ctx.count('cache_paths')
            ev = [e for e in st.tr if e[0] in ('set', 'erase', 'mut', 'assign') and e[1] == cache]
            want = 'set' if q.startswith('set') else 'erase'
            if any(e[0] != want or not key_ok(e[2]) for e in ev) or want == 'set' and (not ev or ev[-1][-1] != K('res')) \
                    or want == 'erase' and not ev and not any(a[0] in ('has', 'had') and b is False for a, b in st.facts.items()):
                ctx.violation(q, 'the cache is not changed for exactly the host and service given', loc_of(f), trace_lines(st))
        ctx.done(E)
    for f in ctx.P.functions.values():
        if f.get('cl') == NS + 'DNSResolver' and f.get('b') and not f.get('lam'):
            n = f['qn'].rsplit('::', 1)[-1]
            if n in ('setCachedResolution',) or base_qn(f['qn']).endswith('::resolve') or f.get('kind') in ('ctor', 'dtor'):
                continue
            E = Engine(ctx.P, C())
            for st, v, l in E.run(f)[0]:
                for e in st.tr:
                    if e[0] == 'set' and e[1] == cache:
                        ctx.violation('writer ' + n, '%s puts something into the cache' % n, loc_of(f), trace_lines(st))
                    if e[0] == 'mut' and e[1] == cache and any('ld' == x[0] for a in e[3] for x in subterms(a) if x) and 'size' not in repr(e[3]):
                        ctx.violation('writer ' + n, '%s puts something into the cache' % n, loc_of(f), trace_lines(st))
            ctx.done(E)


def cached(l, cache):
    while l and l[0] in ('fld', 'mat', 'elem', 'deref'):
        if l[0] in ('mat', 'elem') and field_of(l[1]) == cache or l[0] == 'mat' and cache in repr(l[1]):
            return any(key_ok(x) for x in subterms(l) if x and x[0] in ('rec', 'mk'))
        l = l[1]
    return False


def inorder(v, out):
    if isinstance(v, tuple):
        if v[:1] == ('keep',):
            out.append(v)
        else:
            for x in v:
                inorder(x, out)
    return out


def query(ctx, fs):
    class Q(C):
        def boundary(self, eng, st, c):
            if c.name == 'async_resolve':
                st = st.emit('query', c.args[:-1])
                r = super().boundary(eng, st, c)
                return st if r is None else r
            return super().boundary(eng, st, c)
    n = 0
    for f in fs:
        E = Engine(ctx.P, Q())
        for st, v, l in E.run(f, args=[K('host'), K('service'), K('callback')])[0]:
            for e in st.tr:
                if e[0] == 'query':
                    n += 1
                    ctx.sample('query ' + pp(e[1])[:200])
                    got = inorder(e[1], [])
                    if got[:2] != [K('host'), K('service')]:
                        ctx.violation('query', 'what is resolved is not the host and service asked for', loc_of(f), trace_lines(st))
        ctx.done(E)
    ctx.require(n or ctx.viol, 'the call of the asynchronous resolver')
