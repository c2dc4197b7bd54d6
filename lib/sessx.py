"""Exploration of the session class: its public methods and every handler they lead to."""
from conts import *
from checklib import NS

PUBLIC_ACC = 'public'


class SessCfg(ContCfg):
    INLINE = (NS + 'Session::', NS + 'SessionState::', NS + '(anonymous', 'Bloomberg::amqpprox::(anonymous')
    max_states = 20000

    def inline(self, eng, fn):
        q = fn['qn']
        if fn.get('lam'):
            return fn['file'].endswith('_session.cpp') or 'amqpprox_session.h' in fn['file']
        if q.startswith(NS + 'Session::') or q.startswith(NS + 'SessionState::'):
            return True
        return fn['file'].endswith('amqpprox_session.cpp') or fn['file'].endswith('amqpprox_session.h')

    def sock(self, eng, st, c):
        """'client-side' (towards the client) or 'broker-side' socket, by member name"""
        return None


def public_entries(ctx, eng, cls='Session', ts=()):
    rec = ctx.record(cls)
    out = []
    for f in ctx.P.functions.values():
        if f.get('cl') == NS + cls and f.get('b') and f.get('acc') == 0 and not f.get('lam') and f.get('kind') not in ('dtor',):
            out.append(Entry(('fn', f['id'], f['qn']), 'api', ts, (f['qn'], f['file'], f['l'])))
    ctx.require(len(out) >= 3, 'public methods of ' + cls)
    return out


# ---------------------------------------------------------------------------------------
HND = NS + 'BufferHandle'
CST = ('obj', 'conn-state')


class FlowCfg(SessCfg):
    """events of a session: what is read, processed, written, where, and what is torn down.

    read(sock, ptr, len, n)  aread(sock)  awrite(sock, ptr, len)  process(dir, ptr, len, off)  acquire/release/swap(handle)
    copy(dst, src, n)  close(sock)  ashutdown(sock)  handshake(sock, kind)  connect(sock, endpoint)  resolve(host, port)
    secure(sock, v)  disc(type)  synth(kind, args)  dispatch/post/wait  signal  auth"""
    linear = True

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx
        rec = ctx.record('Session')
        self.socks = [f['n'] for f in rec['fields'] if 'MaybeSecureSocketAdaptor' in f['t']]
        self.handles = [f['n'] for f in rec['fields'] if base_qn(f['t']) == HND]
        ctx.require(len(self.socks) == 2, 'the two sockets of a session')
        E = Engine(ctx.P, Cfg())

        def acc(q):
            v = set()
            for f in ctx.fns(q):
                v |= {field_of(x) for st, x, l in E.run(f)[0]}
            ctx.require(len(v) == 1 and None not in v, 'accessor ' + q)
            return v.pop()
        self.hp, self.hl = acc('BufferHandle::data'), acc('BufferHandle::size')
        self.bp, self.bl, self.bo = acc('Buffer::originalPtr'), acc('Buffer::size'), acc('Buffer::offset')
        self.cstates = dict(ctx.P.enums[NS + 'Connector::State'])
        self.flow = dict(ctx.P.enums[NS + 'FlowType'])
        self.paused = None
        ss = [f['n'] for f in rec['fields'] if base_qn(f['t']).endswith('SessionState')]
        ctx.require(len(ss) == 1, 'session state member')
        self.ss = ('fld', ('obj', 'this'), ss[0])
        self.paused = ('fld', self.ss, acc('SessionState::getPaused'))
        self.ready = ('fld', self.ss, acc('SessionState::getReadyToConnectOnUnpause'))
        self.disc = ('fld', self.ss, acc('SessionState::getDisconnectType'))
        self.dtypes = dict(ctx.P.enums.get(NS + 'SessionState::DisconnectType') or {})
        self.client = None

    def bound_sizes(self, eng):
        """sizes kept by the session are sizes of buffers in memory (C01 shows marks stay within them)"""
        for f in self.ctx.record('Session')['fields']:
            if f['t'] in ('std::size_t', 'size_t', 'unsigned long', 'uint64_t', 'std::uint64_t'):
                eng.ranges[('ld', ('fld', ('obj', 'this'), f['n']), 0)] = (0, 1 << 61)
        for h in self.handles:
            eng.ranges[('ld', ('fld', ('fld', ('obj', 'this'), h), self.hl), 0)] = (0, 1 << 61)

    def roles(self, res):
        """which socket faces the client: the one start() shakes hands on"""
        s = set()
        for e, outs, thr in res:
            if e.kind == 'api' and e.f[2].endswith('Session::start'):
                for st, v, l in outs:
                    s |= {x[1] for x in st.tr if x[0] == 'handshake'}
        self.ctx.require(len(s) == 1 and None not in s, 'the client-facing socket (the one Session::start() shakes hands on)')
        self.client = s.pop()
        self.broker = [x for x in self.socks if x != self.client][0]

    def inline(self, eng, fn):
        if fn['file'].endswith(('amqpprox_buffer.h', 'amqpprox_buffer.cpp')):
            return True
        if base_qn(fn['qn']) in (HND + '::data', HND + '::size'):
            return True
        return super().inline(eng, fn)

    def sockname(self, eng, c, i=None):
        l = c.recvloc if i is None else c.locs[i]
        v = c.recv if i is None else c.args[i]
        for t in (l, v):
            if t is None:
                continue
            for x in subterms(t):
                if x and x[0] == 'fld' and x[1] == ('obj', 'this') and x[2] in self.socks:
                    return x[2]
        return None

    def init_state(self, eng, st):
        # the two sockets are different objects
        a, b = [('ld', ('fld', ('obj', 'this'), x), 0) for x in self.socks]
        at, p = eng.atom_eq(a, b)
        st.facts[at] = not p

    def fresh(self, eng, st, c, tag, lo=0, hi=1 << 62):
        s, t = eng.site(st, c.fr, c.node)
        v = ('sym', tag, t)
        eng.ranges.setdefault(v, (lo, hi))
        return s, v

    def cstate(self, eng, st):
        return eng.load(st, CST)

    def cstate_is(self, eng, st, name, v=None):
        at, p = eng.atom_eq(self.cstate(eng, st) if v is None else v, ('enum', name, self.cstates[name]))
        if at is True or at is False:
            return at == p
        d = eng.decide(st, at)
        return None if d is None else d == p

    def new_state(self, eng, st, c):
        s, v = self.fresh(eng, st, c, 'cstate', None, None)
        eng.ranges.pop(v, None)
        s = s.copy()
        s.mem[CST] = v
        s.mem[('obj', 'conn-side')] = ('sym', 'side', v[2])
        o = ('obj', 'conn-out')
        for k in [k for k in s.mem if climb(o, k) is not None]:
            del s.mem[k]
        s.mem[o] = ('sym', 'out', v[2])
        return s

    def boundary(self, eng, st, c):
        n, b, a = c.name, c.bqn, c.args
        if b == 'boost::asio::buffer' and len(a) == 2:
            return [(st, ('abuf', a[0], a[1]), None)]
        if b == 'boost::asio::buffer' and len(a) == 1:
            return [(st, ('abuf1', a[0]), None)]
        if 'SocketAdaptor' in b:
            k = self.sockname(eng, c)
            if n == 'read_some':
                s, v = self.fresh(eng, st, c, 'nread')
                p, l = (a[0][1], a[0][2]) if a[0][0] == 'abuf' else (a[0], ('unk',))
                ec = None
                if len(c.locs) > 1 and c.locs[1] is not None:
                    s = eng.havoc(s, c.locs[1], (v[2], 1))
                    ec = eng.load(s, c.locs[1])
                s = s.emit('read', k, p, l, v, ec)
                if l[0] != 'unk':
                    s.facts[('<', l, v)] = False
                return [(s, v, None)]
            if n == 'async_read_some':
                return st.emit('aread', k, a[0])
            if n == 'async_handshake':
                return st.emit('handshake', k, a[0])
            if n == 'async_connect':
                return st.emit('connect', k, a[0])
            if n == 'async_shutdown':
                return st.emit('ashutdown', k)
            if n == 'close':
                return st.emit('close', k)
            if n == 'setSecure':
                return st.emit('secure', k, a[0])
            if n in ('setDefaultOptions', 'setDataRateLimit', 'setDataRateAlarm'):
                return st.emit('sockset', k, n, a)
        if b == 'boost::asio::async_write' or n == 'async_write_some':
            k = self.sockname(eng, c, 0 if n == 'async_write' else None)
            x = a[1 if n == 'async_write' else 0]
            p, l = (x[1], x[2]) if x[0] == 'abuf' else (x, ('all',))
            return st.emit('awrite' if n == 'async_write' else 'awrite_some', k, p, l)
        if n == 'write' and b in ('boost::asio::write',):
            x = a[1]
            return st.emit('swrite', self.sockname(eng, c, 0), x)
        if n == 'process' and b.endswith('PacketProcessor::process'):
            l = c.locs[1]
            bf = a[1]
            g = lambda f: eng.load(st, ('fld', l, f)) if l is not None else eng.getf(bf, f)
            s = st.emit('process', a[0], g(self.bp), g(self.bl), g(self.bo))
            s = self.new_state(eng, s, c)
            return self.throwing(eng, s, c)
        if b.startswith(NS + 'PacketProcessor::') and n in ('remaining', 'ingressWrite', 'egressWrite'):
            v = ('pbuf', n, len([e for e in st.tr if e[0] == 'process']))
            q = ('sym', 'pp-' + n, 'ptr')
            z = ('sym', 'pp-' + n, 'len')
            eng.ranges.setdefault(z, (0, 1 << 62))
            return [(st, ('rec', v, (((self.bl,), z), ((self.bo,), ('int', 0)), ((self.bp,), q))), None)]
        if b == NS + 'Connector::state':
            return [(st, self.cstate(eng, st), None)]
        if b == NS + 'Connector::sendToIngressSide':
            return [(st, eng.load(st, ('obj', 'conn-side')), None)]
        if b == NS + 'Connector::outBuffer':
            return [(st, eng.load(st, ('obj', 'conn-out')), None)]
        if b.startswith(NS + 'Connector::synthesize'):
            return [(self.new_state(eng, st.emit('synth', n, a), c), ('void',), None)]
        if b.startswith(NS + 'Connector::') and n in ('setConnectionCreationHandler', 'setConnectionReadyHandler', 'setAuthMechanismCredentials', 'resetOutBuffer'):
            return st.emit('connector', n, a)
        if b == NS + 'BufferPool::acquireBuffer' and len(a) == 2 and a[0][0] == 'ptr':
            h = a[0][1]
            f = field_of(h)
            old = eng.load(st, ('fld', h, self.hp))
            s, v = self.fresh(eng, st, c, 'mem')
            s = s.emit('acquire', f, a[1], old, v)
            s.mem[('fld', h, self.hp)] = v
            s.mem[('fld', h, self.hl)] = a[1]
            return [(s, ('void',), None)]
        if b.startswith(HND + '::') and c.recvloc is not None:
            f = field_of(c.recvloc)
            if n == 'swap' and c.locs[0] is not None:
                o = c.locs[0]
                s = st.emit('swap', f, field_of(o))
                for x in (self.hp, self.hl):
                    p, q = eng.load(st, ('fld', c.recvloc, x)), eng.load(st, ('fld', o, x))
                    s.mem[('fld', c.recvloc, x)] = q
                    s.mem[('fld', o, x)] = p
                return [(s, ('void',), None)]
            if n in ('release', 'assign'):
                s = st.emit('release', f, eng.load(st, ('fld', c.recvloc, self.hp)))
                s.mem[('fld', c.recvloc, self.hp)] = NULL
                s.mem[('fld', c.recvloc, self.hl)] = ('int', 0)
                return [(s, ('void',), None)]
        if n in ('memcpy', 'memmove') and len(a) == 3:
            return [(st.emit('copy', a[0], a[1], a[2]), ('void',), None)]
        if b in ('std::copy', 'std::copy_n') and len(a) == 3:
            return [(st.emit('copy', a[2], a[0], a[1] if n == 'copy_n' else lin_add(a[1], a[0], -1)), ('void',), None)]
        if b.startswith(NS + 'SessionState::') and n == 'setDisconnected':
            return st.emit('disc', a[0])
        if n in ('dispatch', 'post', 'defer') and 'asio' in b:
            return st.emit('handover', n)
        if n == 'async_wait':
            return st.emit('wait')
        if n == 'resolve' and 'DNSResolver' in b:
            return st.emit('resolve', a)
        if n == 'authenticate':
            return st.emit('auth')
        if n == 'acquireConnection':
            return st.emit('acquireConnection', a)
        if n == 'getConnection':
            return st.emit('getConnection', a)
        return None

    def throwing(self, eng, s, c):
        return [(s, ('void',), None)]

    def register(self, eng, st, c, v, idx):
        if eng.quiet:
            return
        ts = self.tag(eng, st, c)
        for f in find_funcs(v):
            if f[0] == 'fn' and f[1] not in eng.P.functions:
                continue
            self.pending.append(Entry(canon(f), c.bqn, ts, (c.fr.fn['qn'], c.fr.fn['file'], c.line), self.current))

    def tag(self, eng, st, c):
        return self.carry(eng, st, c.bqn)
