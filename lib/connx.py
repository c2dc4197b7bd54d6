"""Exploration of the handshake class (Connector): replies are tracked as the sequence of messages in its output buffer."""
from absint import *
from tab import *
from conts import ContCfg
from checklib import NS, loc_of

MSG = {10: 'Start', 11: 'StartOk', 30: 'Tune', 31: 'TuneOk', 40: 'Open', 41: 'OpenOk', 50: 'Close', 51: 'CloseOk'}


def last(q):
    return q.rsplit('::', 1)[-1]


class ConnCfg(ContCfg):
    linear = True
    max_states = 20000

    def inline(self, eng, fn):
        f = fn['file']
        if last(base_qn(fn['qn'])) == 'equalContents':
            return False
        return f.endswith(('amqpprox_connector.cpp', 'amqpprox_connector.h', 'amqpprox_buffer.h', 'amqpprox_buffer.cpp')) or \
            last(base_qn(fn['qn'])) in ('methodType', 'classType')

    def boundary(self, eng, st, c):
        n, b = c.name, c.bqn
        if n == 'encode' and b.endswith('::Method::encode'):
            l = c.locs[1]
            m = c.node.get('ta')
            t = last((m[0].get('t') if isinstance(m[0], dict) else str(m[0]))) if m else ''
            if not t:
                t = '?'
            k = ('mlen', t, len(st.tr))
            eng.ranges[k] = (4, 1 << 20)
            s = st.emit('message', t, field_of(l) if l is not None else None, l)
            if c.locs[0] is not None:
                s.mem[('fld', c.locs[0], 'd_offset')] = k
            return [(s, TRUE, None)]
        if n == 'encode' and b.endswith('::Frame::encode'):
            k = ('flen', len(st.tr))
            eng.ranges[k] = (9, 1 << 20)
            fr = c.args[2] if len(c.args) > 2 else ('unk',)
            l = c.locs[2] if len(c.locs) > 2 else None
            d = {}
            for f in ('type', 'channel', 'payload', 'length'):
                d[f] = eng.load(st, ('fld', l, f)) if l is not None else eng.getf(fr, f)
            s = st.emit('frame', d['type'], d['channel'], d['length'], k, c.args[0])
            r = c.args[1]
            if r[0] == 'ptr':
                s = eng.store(s, r[1], k)
            return [(s, TRUE, None)]
        if n == 'decode' and '::methods::' in b:
            out = []
            for ok in (True, False):
                l = c.args[0][1] if c.args[0][0] == 'ptr' else None
                s = st.emit('decode', b.rsplit('::', 2)[-2], l, ok, c.args[1] if len(c.args) > 1 else None)
                if l is not None:
                    s = s.copy()
                    for k in [k for k in s.mem if climb(l, k) is not None]:
                        del s.mem[k]
                    s.mem[l] = ('decoded', b.rsplit('::', 2)[-2])
                out.append((s, TRUE if ok else FALSE, None))
            return out
        if n == 'emit' and 'EventSourceSignal' in b:
            w = pp(eng.addr(c.recvloc)) if c.recvloc is not None else pp(c.recv)
            return [(st.emit('signal', w.rstrip('()').replace('()', '').rsplit('.', 1)[-1], c.args), ('void',), None)]
        if n == 'operator()' and b.startswith('std::function'):
            return [(st.emit('handler', field_of(c.recvloc) or '?'), ('void',), None)]
        if n in ('setVirtualHost', 'injectProxyClientIdent'):
            return st.emit('call', n, c.args)
        if n == 'memcpy' and b in ('memcpy', 'std::memcpy'):
            return [(st.emit('copy', c.args[0], c.args[1], c.args[2]), ('void',), None)]
        return None


def outputs(eng, st, buf):
    """messages in the output buffer at the end of a path -> (list of (type, member, frame), problem)"""
    out, msg, bad = [], None, None
    for e in st.tr:
        if e[0] == 'assign' and e[1] == buf and not e[2]:
            r = recd(e[3])
            ln = r.get('d_length')
            if ln == ('int', 0) or (not r and e[3][0] == 'mk' and not e[3][2]):
                out = []
        elif e[0] == 'message':
            msg = e
        elif e[0] == 'frame':
            if msg is None:
                bad = 'a frame is written without a message'
            else:
                if num(e[1]) != 1 or num(e[2]) != 0:
                    bad = 'a handshake message is not framed as a method frame on channel 0'
                out.append((msg[1], msg[2], e))
            msg = None
    return out, bad


def members(ctx, E):
    """names of the members behind the accessors"""
    def acc(q):
        v = {field_of(x) for st, x, l in E.run(ctx.fn(q))[0]}
        ctx.require(len(v) == 1 and None not in v, 'accessor ' + q)
        return v.pop()

    def setter(q):
        o = set()
        for st, v, l in E.run(ctx.fn(q))[0]:
            for e in st.tr:
                if e[0] == 'assign':
                    o.add(e[1])
        ctx.require(len(o) == 1, 'setter ' + q)
        return o.pop()
    return {'state': acc('Connector::state'), 'buf': acc('Connector::outBuffer'), 'side': acc('Connector::sendToIngressSide'),
            'create': setter('Connector::setConnectionCreationHandler'), 'ready': setter('Connector::setConnectionReadyHandler')}
