"""C32: a client that is turned away is told why."""
from checklib import *
from sessx import *
from tab import *
import c18

EXPLANATION = ('Path analysis of the session with every handler it registers: each close message the session composes has to be the next thing written, to the side it is for, '
               'and each cause of turning a client away (limit, no route, refused authentication of a client that understands it, close by the broker during the handshake, '
               'orderly disconnect) has to compose one for the client with the code of that cause. Inside the handshake class the text has to fit the field that carries it.')
T = ('obj', 'this')
CS = NS + 'SessionState::ConnectionStatus'


class C(c18.C):
    def new_state(self, eng, st, c):
        s = super().new_state(eng, st, c)
        if c.name.startswith('synthesize'):
            k = (c.fn, tuple(x if num(x) is not None else None for x in c.args))
            side = self.synths[k][1]
            s = s.emit('told', num(side) if side is not None else None, c.name, c.args, c.fn)
        return s

    def boundary(self, eng, st, c):
        if c.name == 'acquireConnection' and 'onnectionSelector' in c.bqn:
            s, v = self.fresh(eng, st.emit('acquireConnection', c.args), c, 'status')
            eng.ranges.pop(v, None)
            return [(s, v, None)]
        if c.name == 'findFieldValue':
            s, v = self.fresh(eng, st, c, 'found')
            eng.ranges.pop(v, None)
            if c.args and c.args[0][0] == 'ptr':
                s = eng.havoc(s, c.args[0][1], (v[2], 'fv'))
            return [(s.emit('found', v, c.args[1:]), v, None)]
        return super().boundary(eng, st, c)


class Text(EffectCfg):
    max_states = 20000

    def inline(self, eng, fn):
        return fn['qn'].startswith(NS + 'Connector::') or fn['qn'].startswith(NS + 'Constants::') or '(anonymous' in fn['qn']

    def on_call(self, eng, st, c):
        if c.name == 'setReply' and 'Close' in c.bqn:
            return [(st.emit('reply', c.args), ('void',), None)]
        return super().on_call(eng, st, c)


def walk(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def small(st, n):
    """n is at most the length of a short string"""
    if num(n) is not None:
        return num(n) <= 255
    return any(x[0] == '<' and (b is False and x[2] == n and num(x[1]) is not None and num(x[1]) <= 255 or
                                b is True and x[1] == n and num(x[2]) is not None and num(x[2]) <= 256) for x, b in st.facts.items())


def fits(st, v):
    if v[:1] == ('str',):
        return len(v[1]) <= 255
    if small(st, ('size', v)):
        return True
    if v[:1] == ('call',) and isinstance(v[1], str) and v[1].endswith('::substr') and len(v) > 3:
        return len(v[3]) > 1 and small(st, v[3][1]) or fits(st, v[2])
    if v[:1] == ('mk',) and 'string' in v[1] and v[2]:
        return len(v[2]) > 1 and small(st, v[2][1]) or fits(st, v[2][0])
    return v[:1] == ('hv',)  # cut in place


def as_given(v, arg):
    """the text itself, or cut at the limit only"""
    if v == arg or v[:1] == ('hv',):
        return True
    if v[:1] == ('call',) and isinstance(v[1], str) and v[1].endswith('::substr') and len(v) > 3:
        a = v[3]
        return as_given(v[2], arg) and (not a or num(a[0]) == 0) and (len(a) < 2 or num(a[1]) == 255 or a[1][:1] == ('size',))
    if v[:1] == ('mk',) and 'string' in v[1] and v[2]:
        a = v[2]
        return as_given(a[0], arg) and (len(a) < 2 or num(a[1]) == 255 or a[1][:1] == ('size',) or a[1][:1] == ('mk',))
    if v[:1] == ('call',) and isinstance(v[1], str) and v[1].rsplit('::', 1)[-1] in ('data', 'begin') and len(v) > 2:
        return as_given(v[2], arg)
    return False


def capability(st):
    """what the path has found out about the announcement: facts about the types of the two entries and the value"""
    ev = {}
    for a, b in st.facts.items():
        for c in a[1:]:
            if c[:1] != ('call',) or not isinstance(c[1], str):
                continue
            if c[1] == NS + 'FieldValue::type' and a[0] == '==':
                k = next((num(x) for x in a[1:] if num(x) is not None), None)
                ev[k] = b
            if c[1] == NS + 'FieldValue::value' and a[0] == 't':
                ev['value'] = b
    return ev


def run(ctx):
    ctx.rule('a close message that is composed is the next thing written, to the side it is for')
    ctx.rule('limit and missing route: the client is told with resource_error, at once or when the delay is over; refused authentication: with access_refused, unless the client does not announce that it understands it')
    ctx.rule('a close by the broker during the handshake is passed on to the client with its code and text; an orderly disconnect is announced to the client')
    ctx.rule('the text of a close message never exceeds the short string that carries it')
    P = ctx.P
    thrown = {t for t in c18.thrown_types(ctx, 'PacketProcessor::process') if t and t != 'std::bad_alloc'} | {'std::runtime_error'}
    cfg = C(ctx, sorted(thrown))
    E = Engine(P, cfg)
    cfg.bound_sizes(E)
    res = explore(E, public_entries(ctx, E))
    cfg.roles(res)
    codes = dict(P.enums.get(NS + 'Reply::Codes::Value') or next((v for k, v in P.enums.items() if k.startswith(NS + 'Reply')), {}) or {})
    ctx.require('resource_error' in codes and 'access_refused' in codes, 'the reply codes')
    status = dict(P.enums[CS])
    byf = {}
    for r in res:
        byf.setdefault(r[0].f, []).append(r)

    def bad(e, st, key, text):
        ctx.violation(key, text, '%s:%s' % (e.site[1], e.site[2]), chain(ctx, e) + trace_lines(st)[:14])
    short = lambda e: e.name(P).split(' at ')[0]

    def code_of(x):
        fn = P.functions.get(x[4])
        for p, a in zip(fn['p'] if fn else (), x[3]):
            if p['t'] in ('uint16_t', 'unsigned short', 'std::uint16_t', 'uint64_t', 'unsigned long', 'int') or 'Codes' in p['t']:
                return a
        return None

    def tells(st, want=None):
        """(code matches, events) of the messages for the client on a path"""
        return [x for x in st.tr if x[0] == 'told' and x[1] == 1 and 'Header' not in x[2]
                and (want is None or code_of(x) is not None and num(code_of(x)) == codes[want])]

    def told(st, want, depth=0):
        if tells(st, want):
            return True
        for x in st.tr:
            if x[0] == 'cont' and x[1].rsplit('::', 1)[-1] in ('dispatch', 'post', 'defer', 'async_wait'):
                for f in x[2]:
                    rs = byf.get(canon(f))
                    if rs and depth < 4 and all(told(s, want, depth + 1) for e2, outs, thr in rs for s, v, l in outs):
                        return True
        return False
    seen = set()
    for e, outs, thr in res:
        fct = P.functions.get(e.f[1]) if e.f[0] == 'fn' else None
        if fct and fct.get('kind') == 'ctor':
            continue
        for st, v, l in outs:
            ctx.count('paths')
            # composed, then sent, to its side
            pend = None
            for x in st.tr:
                if x[0] == 'told' and 'Header' not in x[2]:
                    if pend is not None:
                        bad(e, st, '%s: %s replaced' % (short(e), pend[2]), 'a close message is composed and replaced by another before it is sent')
                    pend = x
                    ctx.count('messages')
                    seen.add('message')
                elif x[0] == 'awrite' and pend is not None:
                    want = cfg.client if pend[1] == 1 else cfg.broker if pend[1] == 0 else None
                    if x[1] != want:
                        bad(e, st, '%s: %s to the wrong side' % (short(e), pend[2]), 'a close message for one side is written to the other')
                    pend = None
                elif x[0] in ('ashutdown', 'close', 'disc', 'aread') and pend is not None:
                    break
            if pend is not None:
                bad(e, st, '%s: %s not sent' % (short(e), pend[2]), 'a close message is composed but not sent')
            # limit and route
            for i, x in enumerate(st.tr):
                if x[0] != 'acquireConnection':
                    continue
                sv = next((t for a in st.facts for t in walk(a) if t[:2] == ('sym', 'status')), None)
                is_ = lambda n: sv is not None and enum_is(E, st, sv, status, n) is True
                why = [n for n in status if n != 'SUCCESS' and is_(n)]
                if why:
                    seen.add(why[0])
                    ctx.count('refusals')
                    if not told(st, 'resource_error'):
                        bad(e, st, 'status %s not told' % why[0], 'a client refused with %s is not told so (resource_error)' % why[0])
            # the broker closed during the handshake
            th = [x for x in st.tr if x[0] == 'threw' and x[1].endswith('CloseError')]
            if th:
                seen.add('close')
                t = tells(st)
                ok = [x for x in t if any(isinstance(y, tuple) and isinstance(y[1] if len(y) > 1 else None, str) and 'replyCode' in y[1] for y in walk(x[3]))
                      and any(isinstance(y, tuple) and isinstance(y[1] if len(y) > 1 else None, str) and 'replyString' in y[1] for y in walk(x[3]))]
                if not ok:
                    bad(e, st, 'close by the broker', 'a close by the broker during the handshake is not passed on to the client with its code and text')
            # refused authentication
            f = [x for x in st.tr if x[0] == 'found']
            if e.kind.endswith('authenticate') and not any(x[0] in ('getConnection', 'resolve') for x in st.tr) and any(x[0] == 'disc' for x in st.tr):
                ctx.count('denied_paths')
                t = tells(st)
                if t:
                    seen.add('denied')
                    if not tells(st, 'access_refused'):
                        bad(e, st, 'denied: code', 'a client refused by the authentication is told so with another code than access_refused')
                    cap = capability(st)
                    if len(f) < 2 or not (cap.get(70) and cap.get(116) and cap.get('value')) or any(st.facts.get(('t', x[1])) is not True for x in f):
                        bad(e, st, 'denied: capability', 'a close message is sent to a client that did not announce that it understands it')
                elif len(f) >= 2 and all(st.facts.get(('t', x[1])) is True for x in f):
                    # both entries are there: only their types or the value can excuse
                    cap = capability(st)
                    if not any(cap.get(k) is False for k in (70, 116, 'value')):
                        bad(e, st, 'denied: not told', 'a client that announced that it understands it is not told about its refusal')
            # orderly disconnect
            if e.kind == 'api' and e.f[2].endswith('Session::disconnect') and not any(x[0] == 'disc' for x in st.tr):
                seen.add('orderly')
                if not told(st, None):
                    bad(e, st, 'orderly disconnect', 'an orderly disconnect is not announced to the client')
    for n in ('message', 'close', 'denied', 'orderly', 'LIMIT', 'NO_FARM', 'ERROR_FARM', 'NO_BACKEND'):
        ctx.require(n in seen, 'paths of: ' + n)
    # the text fits
    E2 = Engine(P, Text())
    n = 0
    for f in P.functions.values():
        if f.get('cl') == NS + 'Connector' and f.get('acc') == 0 and f.get('b') and f.get('kind') not in ('ctor', 'dtor') and not f.get('lam') and f['qn'].rsplit('::', 1)[-1].startswith('synthesizeC'):
            for st, v, l in E2.run(f)[0]:
                for x in st.tr:
                    if x[0] == 'reply':
                        n += 1
                        ctx.count('texts')
                        given = [p for p in f['p'] if p['t'] != 'bool']
                        for p, a in zip(given, x[1]):
                            if not (as_given(a, ('arg', p['n'])) if 'string' in p['t'] else ('arg', p['n']) in list(walk(a))):
                                ctx.violation('%s %s' % (f['qn'], p['n']), 'the %s a close message is to carry is not the one it is given' % p['n'], loc_of(f), trace_lines(st)[:6])
                        if not fits(st, x[1][1]):
                            ctx.violation(f['qn'] + ' text', 'a close message is given a text of any length, and one longer than a short string cannot be sent: the client is not told', loc_of(f), trace_lines(st)[:6])
    ctx.require(n >= 3, 'texts of close messages')
    ctx.done(E)
