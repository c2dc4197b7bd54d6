"""C28: a rate limiter admits at most its limit per window (step relation of the counter)."""
from checklib import *
from tab import *

EXPLANATION = ('Abstract interpretation of the limiter\'s constructors and of its admission step over unknown state; the '
               'step relation of every path (answer, counter and window start as functions of the old state and the clock) '
               'is compared with the specification. By induction over the steps, every history stays within the limit.')
CLS = 'FixedWindowConnectionRateLimiter'
T = ('obj', 'this')


class C(Cfg):
    def volatile(self, bqn):
        return bqn.endswith('::now')


def canon(a, v):
    """'<' facts as (const, coeffs) > 0 / >= 0 inequalities"""
    d = lin_add(a[2], a[1], -1)
    return (d, '>0') if v else (lin_add(('int', 0), d, -1), '>=0')


def run(ctx):
    ctx.rule('deny iff admitted-in-window >= limit; admit adds one; the window restarts (count from zero, start = now) exactly when its full length has elapsed')
    E = Engine(ctx.P, C())
    roles = None
    ctors = ctx.fns(CLS + '::' + CLS)
    ctx.require(ctors, CLS + ' constructors')
    rec = ctx.record(CLS)
    ftype = {f['n']: f['t'] for f in rec['fields']}
    for fn in ctors:
        ps = [p for p in fn['p'] if p['t'].replace('const ', '') in ('unsigned int', 'uint32_t', 'unsigned long', 'int', 'size_t')]
        if len(ps) != 2:
            continue
        for st, v, l in E.run(fn)[0]:
            r = {}
            for k, x in st.mem.items():
                if k[0] == 'fld' and k[1] == T:
                    if x in (('arg', ps[0]['n']),):
                        r.setdefault('limit', []).append(k[2])
                    elif x == ('int', 0):
                        r.setdefault('count', []).append(k[2])
                    elif x[0] == 'call' and x[1].endswith('::now') or x[0] == 'call' and 'now' in pp(x):
                        r.setdefault('last', []).append(k[2])
                    elif mentions(x, lambda t: t == ('arg', ps[1]['n'])):
                        r.setdefault('window', []).append(k[2])
                        unit = 1000 if 'ratio<1, 1000>' in ftype.get(k[2], '') else None
                        c, d = to_lin(x[2][0]) if x[0] == 'mk' and x[2] else to_lin(x)
                        if x[0] == 'call' and 'mk' in repr(x):
                            unit = None
                        if unit and (c != 0 or d != {('arg', ps[1]['n']): unit}):
                            ctx.violation('window length', 'the window is not the configured number of seconds: %s' % pp(x)[:200], loc_of(fn))
            if set(r) != {'limit', 'count', 'last', 'window'} or any(len(x) != 1 for x in r.values()):
                ctx.violation('constructor', 'the limiter does not start with the configured limit, an empty count and a window starting now (%s)' % r, loc_of(fn))
                ctx.done(E)
                return
            r = {k: x[0] for k, x in r.items()}
            if roles is None:
                roles = r
            elif roles != r:
                ctx.violation('constructors disagree', 'two constructors initialise the limiter differently', loc_of(fn))
    ctx.require(roles, 'constructor roles of ' + CLS)
    L = {k: ('ld', ('fld', T, f), 0) for k, f in roles.items()}
    fn = ctx.fn(CLS + '::allowNewConnection')
    E2 = Engine(ctx.P, C())
    outs, thr = E2.run(fn)
    ctx.require(outs, 'paths')
    for st, v, l in outs:
        ctx.count('paths')
        nows = {t for a in list(st.facts) for t in subterms(a) if t and t[0] == 'call' and 'now' in t[1].rsplit('::', 1)[-1]}
        nows |= {t for x in st.mem.values() for t in subterms(x) if t and t[0] == 'call' and 'now' in t[1].rsplit('::', 1)[-1]}
        inwin = None
        for a, val in st.facts.items():
            if a[0] != '<':
                continue
            for n in nows:
                # window - (now - last) > 0
                w = lin_add(L['window'], lin_add(n, L['last'], -1), -1)
                d, k = canon(a, val)
                if d == w and k == '>0':
                    inwin = True
                elif d == lin_add(('int', 0), w, -1) and k == '>=0':
                    inwin = False
        post = {k: E2.load(st, ('fld', T, f)) for k, f in roles.items()}
        ctx.sample('%s | in-window=%s -> %s count=%s last=%s' % (ppfacts(st)[:200], inwin, pp(v), pp(post['count']), pp(post['last'])))

        def bad(key, text):
            ctx.violation(key, text, loc_of(fn), trace_lines(st, ['returns %s, count becomes %s, window start becomes %s' % (pp(v), pp(post['count']), pp(post['last']))]))
        if inwin is None:
            bad('window undecided', 'an admission is decided without establishing whether the window has elapsed')
            continue
        if post['limit'] != L['limit'] or post['window'] != L['window']:
            bad('limit changed', 'deciding an admission changes the configured limit or window')
        c0 = L['count'] if inwin else ('int', 0)
        room = None
        at, p = E2.atom_lt(c0, L['limit'])
        d = E2.decide(st, at)
        if d is not None:
            room = d == p
        else:
            # count0 + 1 <= limit and the like
            for a, val in st.facts.items():
                if a[0] == '<':
                    x, k = canon(a, val)
                    g = lin_add(L['limit'], c0, -1)
                    if (x, k) in ((g, '>0'), (lin_add(g, ('int', -1)), '>=0')):
                        room = True
                    ng = lin_add(('int', 0), g, -1)
                    if (x, k) in ((ng, '>=0'), (lin_add(ng, ('int', 1)), '>0')):
                        room = False
        if room is None:
            bad('limit undecided', 'an admission is decided without comparing the count of the window with the limit')
            continue
        if v != (TRUE if room else FALSE):
            bad('answer', 'the answer is %s although the window has %s room' % (pp(v), '' if room else 'no'))
        want = lin_add(c0, ('int', 1)) if room else c0
        if post['count'] != want:
            bad('count', 'after the decision the count of the window is %s, not %s' % (pp(post['count']), pp(want)))
        if inwin and post['last'] != L['last']:
            bad('window moved', 'the window start moves although the window has not elapsed')
        if not inwin and post['last'] not in nows:
            bad('window not restarted', 'the window has elapsed but does not restart at the current time')
    ctx.done(E)
    ctx.done(E2)
