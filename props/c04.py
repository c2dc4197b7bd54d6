"""C04: authentication failures deny; every request gets exactly one verdict."""
from checklib import *
from conts import *
from tab import *

EXPLANATION = ('Typestate analysis of every implementation of the authentication interface: authenticate() and every completion handler it '
               'registers (each analysed with unknown memory and unknown error codes). On every path the verdict callback is either '
               'called once or handed on to exactly one further completion; what it is called with is compared with what the path knows '
               'about errors, the HTTP status and the parsed response.')
CB = 'std::function<void (const Bloomberg::amqpprox::authproto::AuthResponse &)>'
RES = '$result'


class C(ContCfg):
    cont_event = True

    def __init__(self, ctx, files):
        super().__init__()
        self.ctx, self.files = ctx, files

    def inline(self, eng, fn):
        return fn['file'] in self.files

    def boundary(self, eng, st, c):
        n, b = c.name, c.bqn
        if c.qn.startswith(CB) and n == 'operator()':
            l = c.locs[0]
            v = eng.load(st, ('fld', l, RES)) if l is not None else eng.getf(c.args[0], RES)
            return [(st.emit('verdict', v, eng.load(st, l) if l is not None else c.args[0]), ('void',), None)]
        if 'authproto' in b or 'protobuf' in b:
            l = c.recvloc
            if n == 'set_result' and l is not None:
                s = st.copy()
                s.mem[('fld', l, RES)] = c.args[0]
                return [(s, ('void',), None)]
            if n in ('ParseFromString', 'ParseFromArray') and l is not None:
                out = []
                for ok in (True, False):
                    s = st.copy()
                    s.mem[('fld', l, RES)] = ('wire', c.args[0]) if ok else ('unparsed',)
                    out.append((s if ok else s.emit('unparsed'), TRUE if ok else FALSE, None))
                return out
            if n == 'Clear' and l is not None:
                s = st.copy()
                s.mem[('fld', l, RES)] = ('int', 0)
                return [(s, ('void',), None)]
            if n.startswith(('set_', 'mutable_', 'clear_')) and l is not None:
                s, tag = eng.site(st, c.fr, c.node)
                if eng.load(st, ('fld', l, RES))[0] == 'wire':
                    s = s.copy()
                    s.mem[('fld', l, RES)] = ('altered', n)
                return [(s, ('call', b, (), c.args, tag), None)]
            if n in ('result', 'reason', 'has_authdata', 'authdata', 'SerializeToString', 'authmechanism'):
                return None
        return None


def verdict_of(r):
    n = num(r)
    if n is not None:
        return 'ALLOW' if n == 0 else 'DENY' if n == 1 else None
    if r[0] in ('ld', 'enum'):
        s = r[1][1] if r[0] == 'ld' and r[1][0] == 'glob' else r[1] if r[0] == 'enum' else ''
        for x in ('ALLOW', 'DENY'):
            if s.endswith(x):
                return x
    return None


def errs(ctx, e):
    """terms of the error codes a handler is given"""
    P = ctx.P
    f = e.f
    fn = None
    if f[0] == 'pbind':
        fn = P.functions.get(f[1][1]) if f[1][0] == 'fn' else None
        if f[1][0] == 'clos':
            f = f[1]
    if f[0] == 'clos':
        fn = next((P.functions[i] for i in f[1] if i in P.functions and P.functions[i].get('b')), None)
    if f[0] == 'fn':
        fn = P.functions.get(f[1])
    out = []
    for p in (fn or {'p': ()})['p']:
        if 'error_code' in p['t']:
            out.append((('arg', p['n']), ('ld', ('obj', p['n']), 0)))
    return fn, out


def success(st):
    """does the path know that the HTTP status is a success?"""
    lo = hi = False
    for a, v in st.facts.items():
        if not mentions(a, lambda t: t and t[0] == 'call' and t[1].startswith('boost::beast::http::') and t[1].rsplit('::', 1)[-1] in ('result', 'result_int')):
            continue
        if a[0] == '==' and v:
            c = a[1]
            if c[0] == 'enum' and c[1].endswith('::successful') or num(c) in (200,):
                return True
        if a[0] == '==' and not v and a[1][0] == 'boolv':
            pass
        if a[0] == '<':
            x, y = num(a[1]), num(a[2])
            if v and y is not None and y <= 300 or not v and x is not None and x <= 299:
                hi = True
            if not v and y is not None and y >= 200 or v and x is not None and x >= 199:
                lo = True
    return lo and hi


def run(ctx):
    ctx.rule('each path of authenticate() and of each handler: verdict calls + completions given the callback == 1')
    ctx.rule('error code not known to be clear, status not known to be a success, or response not parsed => verdict DENY and nothing else')
    ctx.rule('verdict of a parsed response is passed on unchanged')
    ctx.assume('asio, beast and the resolver call each completion handler exactly once, later')
    impl = [f for f in ctx.P.functions.values() if f.get('b') and f['qn'].endswith('::authenticate') and f.get('m') and f['file'].startswith('libamqpprox/')]
    ctx.require(impl, 'implementations of authenticate()')
    wired = 0
    for f in sorted(impl, key=lambda f: f['id']):
        cfg = C(ctx, {f['file'], f['file'].replace('.cpp', '.h')})
        E = Engine(ctx.P, cfg)
        res = explore(E, [Entry(('fn', f['id'], f['qn']), 'api', (), (f['qn'], f['file'], f['l']))])
        http = any('http' in e.kind for e, o, t in res)
        for e, outs, thr in res:
            ctx.count('entry points and handlers')
            fn, ecs = errs(ctx, e)
            where = loc_of(fn) if fn else e.site[1]
            name = fn_key(fn) if fn else 'handler'
            if thr:
                for x in thr:
                    ctx.violation('exception in ' + name, 'an exception leaves %s without a verdict' % name, where, trace_lines(x[0]) if isinstance(x, tuple) and hasattr(x[0], 'tr') else None)
            for st, v, l in outs:
                ctx.count('paths')
                ver = [x for x in st.tr if x[0] == 'verdict']
                con = [x for x in st.tr if x[0] == 'cont']
                n = len(ver) + len(con)
                path = chain(ctx, e) + trace_lines(st)
                if n != 1:
                    ctx.violation('%s verdicts in %s' % ('no' if n == 0 else 'several', name),
                                  '%s: %d verdicts and %d further completions on one path' % (name, len(ver), len(con)), where, path)
                bad = [a for a in ecs if not any(st.facts.get(('t', t)) is False for t in a)]
                for x in con:
                    if bad:
                        ctx.violation('goes on after an error in ' + name, '%s goes on although the operation may have failed' % name, where, path)
                for x in ver:
                    ctx.count('verdicts')
                    r = x[1]
                    if r[0] == 'wire':
                        wired += 1
                        if not mentions(r[1], lambda t: t and t[0] == 'call' and t[1].endswith('message::body')):
                            ctx.violation('verdict source in ' + name, '%s passes on a verdict that is not the body of the response (%s)' % (name, pp(r[1])[:100]), where, path)
                        if bad:
                            ctx.violation('verdict after an error in ' + name, '%s passes on the verdict of a response that may not have been received' % name, where, path)
                        if not success(st):
                            ctx.violation('verdict of a failed request in ' + name, '%s passes on the verdict of a response whose HTTP status is not known to be a success' % name, where, path)
                        continue
                    if verdict_of(r) == 'DENY':
                        if http and e.kind != 'api' and not bad and not error_known(st, ecs):
                            ctx.violation('denies a good response in ' + name, '%s denies although nothing failed' % name, where, path)
                        continue
                    if not http and verdict_of(r) == 'ALLOW':
                        continue                   # the always-allow implementation
                    ctx.violation('verdict other than DENY in ' + name, '%s gives the verdict %s on a failure or without a parsed response' % (name, pp(r)[:100]), where, path)
        if not http:
            allow = [x for e, o, t in res for st, v, l in o for x in st.tr if x[0] == 'verdict']
            for x in allow:
                if verdict_of(x[1]) != 'ALLOW':
                    ctx.violation('always-allow verdict', 'the always-allow authentication gives %s' % pp(x[1])[:80], loc_of(f))
        ctx.done(E)
    ctx.require(wired, 'a path that passes on the verdict of the service')


def error_known(st, ecs):
    """a DENY is justified by some failure the path knows of"""
    for a in ecs:
        if any(st.facts.get(('t', t)) for t in a):
            return True
    for a, v in st.facts.items():
        if a[0] == '==' and not v or a[0] == '<':
            if mentions(a, lambda t: t and t[0] == 'call' and t[1].startswith('boost::beast::http')):
                return True
    # not parsed
    return any(x[0] == 'unparsed' for x in st.tr) or not ecs
