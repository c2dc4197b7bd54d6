"""Exploration of the socket adaptor: every operation on the stream is an event ('io', operation, 'plain' or 'tls', args)."""
from absint import *
from tab import *
from conts import ContCfg
from checklib import NS

AD = NS + 'MaybeSecureSocketAdaptor'
OPS = {'read_some', 'async_read_some', 'write_some', 'async_write_some', 'async_handshake', 'handshake', 'async_shutdown', 'shutdown', 'close', 'async_connect',
       'available', 'async_wait', 'read', 'write', 'async_receive', 'async_send', 'receive', 'send', 'async_read', 'async_write'}


class SockCfg(ContCfg):
    linear = True
    cont_event = True
    max_states = 20000

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        rec = [r for q, r in ctx.P.records.items() if base_qn(q) == AD and r.get('fields')]
        ctx.require(rec, 'record ' + AD)
        f = rec[0]['fields']
        pick = lambda s, t: [x['n'] for x in f if t in x['t']]
        self.stream = pick('stream', 'unique_ptr')
        ctx.require(len(self.stream) == 1, 'the stream of the socket adaptor')
        self.stream = self.stream[0]
        self.icept = pick('intercept', 'SocketIntercept')
        self.fields = {x['n']: x['t'] for x in f}

    def inline(self, eng, fn):
        return fn['file'].endswith(('amqpprox_maybesecuresocketadaptor.h', 'amqpprox_dataratelimit.h', 'amqpprox_dataratelimit.cpp'))

    def which(self, c, i=None):
        l = c.recvloc if i is None else c.locs[i]
        v = c.recv if i is None else c.args[i]
        for t in (l, v):
            if t is None:
                continue
            for x in subterms(t):
                if x and x[0] == 'fld' and x[2] == '$plain':
                    return 'plain'
            for x in subterms(t):
                if x and x[0] == 'fld' and x[1][0] == 'obj' and x[2] == self.stream:
                    return 'tls'
        return None

    def boundary(self, eng, st, c):
        n, b = c.name, c.bqn
        if n == 'has_value' and field_of(c.recvloc) in self.icept:
            return [(st, FALSE, None)]
        if n == '__builtin_expect':
            return [(st, c.args[0], None)]
        if n in ('next_layer', 'lowest_layer') and c.recvloc is not None:
            l = ('fld', c.recvloc, '$plain')
            return [(st, eng.load(st, l), l)]
        if n in OPS and ('asio' in b):
            w = self.which(c) if c.node.get('o') is not None else self.which(c, 0)
            if w is None:
                return None
            s, t = eng.site(st, c.fr, c.node)
            s = s.emit('io', n, w, c.args)
            if n in ('read_some', 'write_some', 'read', 'write', 'available', 'shutdown', 'close'):
                for l in c.locs[(0 if n == 'available' else 1):]:
                    if l is not None:
                        s = eng.havoc(s, l, (t, 1))
                v = ('sym', 'io-' + n, t)
                eng.ranges.setdefault(v, (0, 1 << 62))
                return [(s, v, None)]
            return s
        if n == 'operator()' and c.node.get('o') is not None and not (c.fn in eng.P.functions and self.inline(eng, eng.P.functions[c.fn])):
            return [(st.emit('invoke', pp(c.recv), c.args), ('void',), None)]
        return None


def adaptor_fns(ctx, name):
    return [f for f in ctx.P.functions.values() if f.get('b') and not f.get('lam') and base_qn(f['qn']) == AD + '::' + name]
