"""Analysis of PacketProcessor::process: what is dispatched to the handshake, what is forwarded, counted and kept."""
from bounds import *
from tab import *
from checklib import NS, loc_of

GST, GN, GNEXT = ('obj', 'ghost-state'), ('obj', 'ghost-frames'), ('obj', 'ghost-next')
T = ('obj', 'this')


class PCfg(BoundsCfg):
    loop_iters = 1

    def __init__(self, ctx):
        super().__init__(ctx)
        self.iters = []
        self.ing = self.accessor('PacketProcessor::ingressWrite')
        self.egr = self.accessor('PacketProcessor::egressWrite')

    def inline(self, eng, fn):
        q = fn['qn']
        if q.startswith(NS + 'Connector::') or q.startswith(NS + 'SessionState::'):
            return False
        return super().inline(eng, fn)

    def loop_candidates(self, eng, h, head, changed):
        ks = [k for k in changed if k in h.mem and h.mem[k][0] in ('int', 'enum', 'ld', 'arg', 'lin', 'hv', 'sym', 'lv', 'call', 'getf', 'trunc')
              and k[0] in ('var', 'obj') and k != GST and k[1] not in ('ghost-out', 'ghost-side')]
        out = []
        for k in ks:
            v0 = h.mem[k]
            out.append(lambda s, k=k, v0=v0: lin_add(eng.load(s, k), v0, -1))
        for i, a in enumerate(ks):
            for b in ks[i + 1:]:
                for sg in (1, -1):
                    v0 = lin_add(h.mem[a], h.mem[b], sg)
                    out.append(lambda s, a=a, b=b, sg=sg, v0=v0: lin_add(lin_add(eng.load(s, a), eng.load(s, b), sg), v0, -1))
                    out.append(lambda s, a=a, b=b, sg=sg, v0=v0: lin_add(v0, lin_add(eng.load(s, a), eng.load(s, b), sg), -1))
        return out

    def iter_end(self, eng, head, ends, node):
        for e in ends:
            self.iters.append((head, e, e.tr[len(head.tr):], self.wbufs(eng, e)))

    def wbufs(self, eng, st):
        return eng.load(st, ('fld', T, self.ing)), eng.load(st, ('fld', T, self.egr))

    def on_call(self, eng, st, c):
        b, n = c.bqn, c.name
        if b == NS + 'Connector::state':
            return [(st, eng.load(st, GST), None)]
        if b == NS + 'Connector::sendToIngressSide':
            return [(st, eng.load(st, ('obj', 'ghost-side')), None)]
        if b == NS + 'Connector::outBuffer':
            return [(st, eng.load(st, ('obj', 'ghost-out')), None)]
        if b == NS + 'Connector::receive':
            kind = 'header' if len(c.args) == 1 else 'method'
            extra = ()
            if kind == 'method' and c.locs[0] is not None:
                extra = tuple(eng.load(st, ('fld', c.locs[0], x)) for x in ('classType', 'methodType', 'payload', 'length'))
            s, t = eng.site(st.emit('receive', kind, c.args, extra), c.fr, c.node)
            s = s.copy()
            for g in (GST, ('obj', 'ghost-side'), ('obj', 'ghost-out')):
                for k in [k for k in s.mem if climb(g, k) is not None]:
                    del s.mem[k]
                s.mem[g] = ('sym', g[1], t)
            return [(s, ('void',), None)]
        if b.startswith(NS + 'SessionState::'):
            return [(st.emit('state', n, c.args), ('unk', n), None)]
        if b == NS + 'Frame::decode' and len(c.args) == 5:
            out = []
            buf, ln = c.args[3], c.args[4]
            for s, v, l in super().on_call(eng, st, c):
                if v == TRUE:
                    f = eng.deref(s, c.args[0])
                    s = s.emit('frame', eng.load(s, ('fld', f, 'type')), eng.load(st, GST), self.wbufs(eng, st),
                               eng.load(s, ('fld', f, 'payload')), eng.load(s, ('fld', f, 'length')))
                    s = s.copy()
                    s.mem[GN] = lin_add(eng.load(st, GN), ('int', 1))
                    s.mem[GNEXT] = s.mem[eng.deref(s, c.args[1])]
                    # where the frame was taken from
                    s.tr = s.tr + (('from', buf, ln, eng.load(st, GNEXT)),)
                else:
                    s = s.emit('nodecode', buf, ln)
                out.append((s, v, l))
            return out
        if b == NS + 'Method::decode':
            out = []
            for s, v, l in super().on_call(eng, st, c):
                f = c.args[0][1] if c.args[0][0] == 'ptr' else None
                cls = eng.load(s, ('fld', f, 'classType')) if f is not None else ('unk',)
                out.append((s.emit('mdecode', v, cls, c.args[1], c.args[2]), v, l))
            return out
        return super().on_call(eng, st, c)


def analyse_process(ctx):
    """-> (cfg, eng, fn, list of final states, thrown)"""
    cfg = PCfg(ctx)
    eng = BoundsEngine(ctx.P, cfg)
    fn = ctx.fn('PacketProcessor::process')
    st = St()
    B = [p['n'] for p in fn['p'] if 'Buffer' in p['t']]
    ctx.require(len(B) == 1 and len(fn['p']) == 2, 'parameters of PacketProcessor::process')
    R = ('obj', B[0])
    orig = ('ld', ('fld', R, cfg.bp), 0)
    off = ('ld', ('fld', R, cfg.bo), 0)
    ln = ('ld', ('fld', R, cfg.bl), 0)
    for x in (off, ln):
        eng.ranges[x] = (0, 1 << 62)
    st.facts[('<', ln, off)] = False
    cfg.regions[orig] = ln
    st.mem[GST] = ('sym', 'state0', 0)
    st.mem[('obj', 'ghost-side')] = ('sym', 'side0', 0)
    st.mem[('obj', 'ghost-out')] = ('sym', 'out0', 0)
    st.mem[GN] = ('int', 0)
    st.mem[GNEXT] = orig
    outs, thr = eng.run(fn, st=st)
    return cfg, eng, fn, outs, thr, orig, off, [p['n'] for p in fn['p'] if 'Buffer' not in p['t']][0]


def eq(eng, st, a, b):
    d = lin_add(a, b, -1)
    return eng.entails(st, d) and eng.entails(st, lin_add(('int', 0), d, -1))


def decide_eq(eng, st, v, name, n):
    at, p = eng.atom_eq(v, ('enum', name, n))
    if at is True or at is False:
        return at == p
    d = eng.decide(st, at)
    return None if d is None else d == p
