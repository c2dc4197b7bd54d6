"""The data path of a session: where bytes are read to, what is processed, kept and written, and where reading goes on."""
from checklib import *
from sessx import *
from tab import *

T = ('obj', 'this')


class C(FlowCfg):
    def tag(self, eng, st, c):
        n = c.name
        if n == 'async_read_some' and 'SocketAdaptor' in c.bqn:
            return ('read', self.sockname(eng, c))
        if c.bqn == 'boost::asio::async_write':
            src = [e for e in st.tr if e[0] == 'process']
            rd = [e for e in st.tr if e[0] == 'read']
            synth = False
            for e in st.tr:
                if e[0] == 'process':
                    synth = False
                elif e[0] == 'synth':
                    synth = True
            o = None
            if src and not synth:
                o = self.cstate_is(eng, st, 'OPEN')
                return ('write', self.sockname(eng, c, 0), rd[-1][1] if rd else ('dir', num(src[-1][1])), o)
            return ('write', self.sockname(eng, c, 0), None, False)
        return ()


def run(ctx):
    cfg = C(ctx)
    E = Engine(ctx.P, cfg)
    cfg.bound_sizes(E)
    res = explore(E, public_entries(ctx, E))
    cfg.roles(res)
    ctx.count('session_entries', len(res))
    eq = lambda st, a, b: a == b or (E.entails(st, lin_add(a, b, -1)) and E.entails(st, lin_add(b, a, -1)))

    def zero(st, v):
        n = num(v)
        if n is not None:
            return n == 0
        at, p = E.atom_eq(v, ('int', 0))
        d = E.decide(st, at)
        if d is not None:
            return d == p
        if E.entails(st, lin_add(('int', 0), v, -1)):
            return True
        if E.entails(st, lin_add(v, ('int', 1), -1)):
            return False
        return None
    side = lambda k: 'client' if k == cfg.client else 'broker'
    data, mark = {}, {}
    reads = [r for r in res if r[0].ts[:1] == ('read',)]
    ctx.require({r[0].ts[1] for r in reads} == set(cfg.socks), 'a read handler for each side')
    # roles: buffer and mark of each side, as used by its reads
    for e, outs, thr in reads:
        for st, v, l in outs:
            for x in st.tr:
                if x[0] == 'read':
                    c, d = to_lin(x[2])
                    fs = {(t[1][1][2], k) for t, k in d.items() if t[0] == 'ld' and t[1][0] == 'fld' and t[1][2] == cfg.hp and field_of(t[1][1])}
                    ms = {(t[1][2], k) for t, k in d.items() if t[0] == 'ld' and t[1][0] == 'fld' and t[1][1] == T}
                    if len(fs) == 1 and len(ms) == 1:
                        data.setdefault(e.ts[1], set()).add(fs.pop()[0])
                        mark.setdefault(e.ts[1], set()).add(ms.pop()[0])
    for k in cfg.socks:
        if len(data.get(k, ())) != 1 or len(mark.get(k, ())) != 1:
            ctx.violation('read position ' + side(k), 'data read from the %s is not appended after the data kept from it' % side(k), None)
            ctx.done(E)
            return
        data[k], mark[k] = data[k].pop(), mark[k].pop()
    if len(set(data.values())) != 2 or len(set(mark.values())) != 2:
        ctx.violation('shared buffers', 'both directions read into the same buffer or share a read mark', None)
        ctx.done(E)
        return
    partner = {}
    def check_processing(st, k, d0, kept, tear, bad):
        lk = ('fld', ('fld', T, data[k]), cfg.hp)
        lm = ('fld', T, mark[k])
        PR = [x for x in st.tr if x[0] == 'process']
        wm = E.load(st, lm)
        ctx.count('processing_paths')
        if len(PR) != 1:
            bad('processed twice', 'received data is processed more than once')
            return
        p = PR[0]
        want = 'INGRESS' if k == cfg.client else 'EGRESS'
        if num(p[1]) != cfg.flow[want]:
            bad('direction', 'data from the %s is processed as if it came from the other side' % side(k))
        if not eq(st, p[2], d0):
            bad('processed data', 'what is processed does not start with the kept and received data')
        if not eq(st, p[4], kept):
            bad('processed length', 'what is processed (%s bytes) is not the kept data plus what was just read' % pp(p[4])[:120])
        j = st.tr.index(p)
        after = st.tr[j:]
        rest = [('sym', 'pp-remaining', x) for x in ('ptr', 'len')]
        zr = zero(st, rest[1])
        if zr is None:
            bad('rest ignored', 'the unprocessed rest of the data is not looked at')
            return
        if zr:
            if zero(st, wm) is not True:
                bad('mark', 'processed data is kept as if it was unprocessed')
        else:
            if not eq(st, wm, rest[1]):
                bad('mark', 'the unprocessed rest is not what is kept (mark %s)' % pp(wm)[:100])
            nd = E.load(st, lk)
            cp = [x for x in after if x[0] == 'copy']
            if nd == d0:
                if not any(eq(st, x[1], d0) and x[2] == rest[0] and eq(st, x[3], rest[1]) for x in cp):
                    bad('rest lost', 'the unprocessed rest is not moved to the front of the buffer')
                elif [x for x in after if x[0] in ('awrite',)]:
                    bad('rest overwrites', 'the rest is moved inside the buffer that is being written')
            else:
                if not any(x[1] == nd and x[2] == rest[0] and eq(st, x[3], rest[1]) for x in cp):
                    bad('rest lost', 'the unprocessed rest is not copied to the new buffer')
                for x in after:
                    if x[0] == 'acquire' and x[1] == data[k] and x[3] == d0:
                        bad('data dropped', 'the buffer with the received data is given up before it has been written or copied')
        for x in after:
            if x[0] == 'swap':
                o = [y for y in x[1:3] if y != data[k]]
                if data[k] not in x[1:3] or len(o) != 1 or o[0] in data.values():
                    bad('swap', 'the buffers of the two directions are exchanged')
                else:
                    partner.setdefault(k, set()).add(o[0])
            if x[0] in ('acquire', 'release') and x[1] in data.values() and x[1] != data[k]:
                bad('other buffer', 'processing data of one direction gives up the buffer of the other')
        if [x for x in after if x[0] == 'release' and x[2] == d0]:
            bad('released', 'the buffer with the received data is released while it may still be written')
        ing, egr = [[('sym', 'pp-' + m, x) for x in ('ptr', 'len')] for m in ('ingressWrite', 'egressWrite')]
        zi, ze = zero(st, ing[1]), zero(st, egr[1])
        ws = [x for x in after if x[0] == 'awrite']
        if [x for x in after if x[0] == 'awrite_some' or x[0] == 'swrite']:
            bad('partial write', 'a run is written with an operation that may write only part of it')
        if self_side(cfg, E, st, k, zi, ze):
            return        # no such result: an open session forwards to the other side (shown above)
        if zi is None and ze is None:
            bad('writes ignored', 'what has to be written is not looked at')
        fwd = [x for x in ws if x[2] in (ing[0], egr[0])]
        syn = [x for x in after if x[0] == 'synth']
        if zi is False or ze is False:
            b, to = (ing, cfg.client) if zi is False else (egr, cfg.broker)
            if len(fwd) != 1:
                bad('write once', 'a run to be forwarded is not written exactly once')
            else:
                x = fwd[0]
                if x[1] != to or x[2] != b[0]:
                    bad('write side', 'a run for the %s is written to the %s' % (side(to), side(x[1])))
                if not eq(st, x[3], b[1]):
                    bad('write length', 'a run is not written completely (%s of %s)' % (pp(x[3])[:60], pp(b[1])))
            if [x for x in after if x[0] == 'aread'] and not syn:
                bad('reads and writes', 'reading goes on while the run read before is still being written')
        else:
            if fwd:
                bad('write of nothing', 'an empty run is written')
            n = [x for x in after if x[0] == 'aread']
            if not tear and not syn and (len(n) != 1 or n[0][1] != k):
                bad('read on', 'after data that produced nothing to write, reading does not go on exactly once on the same socket')
        if ws and not any(E.load(st, ('fld', ('fld', T, h), cfg.hp)) == d0 for h in cfg.handles):
            bad('buffer gone', 'the buffer being written is not held until it has been written')

    for e, outs, thr in reads:
        k = e.ts[1]
        lk = ('fld', ('fld', T, data[k]), cfg.hp)
        lm = ('fld', T, mark[k])
        fn = handler_fn(ctx, e)
        for st, v, l in outs:
            ctx.count('read_paths')

            def bad(key, text):
                ctx.violation('%s (data from the %s)' % (key, side(k)), text, e.site[1] + ':' + str(e.site[2]), chain(ctx, e) + trace_lines(st))
            R = [x for x in st.tr if x[0] == 'read']
            PR = [x for x in st.tr if x[0] == 'process']
            wm = E.load(st, lm)
            wm0 = ('ld', lm, 0)
            if not R:
                if PR or ('fld', T, mark[k]) in st.mem:
                    bad('processed without read', 'data is processed or discarded although nothing was read')
                continue
            if len(R) != 1 or R[0][1] != k:
                bad('read socket', 'a handler that waits for data from one socket reads from another, or reads twice')
                continue
            r = R[0]
            i = st.tr.index(r)
            acq = [x for x in st.tr[:i] if x[0] == 'acquire']
            d0 = acq[-1][4] if acq and acq[-1][1] == data[k] else ('ld', lk, 0)
            z0 = zero(st, wm0)
            for x in acq:
                if x[1] != data[k]:
                    bad('acquire', 'reading replaces the buffer of the other direction')
                elif z0 is not True:
                    bad('buffer dropped', 'the buffer is replaced although it holds unprocessed data')
            pos = lin_add(d0, ('int', 0) if z0 is True and acq else wm0)
            if not eq(st, r[2], pos):
                bad('read position', 'data is read to %s, not after the data already kept' % pp(r[2])[:120])
            base = ('int', 0) if z0 is True else wm0
            tear = [x for x in st.tr[i:] if x[0] in ('close', 'ashutdown', 'disc')]
            cont = [x for x in st.tr if x[0] in ('awrite', 'aread', 'awrite_some', 'swrite')]
            if not PR:
                if r[5] is None:
                    bad('read error', 'a read reports errors by exception')
                    continue
                err = E.decide(st, ('t', r[5]))
                wb = would_block(st, r[5])
                pau = E.decide(st, ('t', ('ld', cfg.paused, 0)))
                if err is None and wb is not True:
                    bad('unchecked', 'what a read returned is used or discarded without looking for an error')
                elif wb is True:
                    if not eq(st, wm, wm0) or len(cont) != 1 or cont[0][:2] != ('aread', k):
                        bad('read again', 'a read that gave no data is not repeated exactly once on its socket')
                elif err is False:
                    if not (pau is True and k == cfg.client):
                        bad('not processed', 'received data is not processed')
                    elif not eq(st, wm, lin_add(base, r[4])):
                        bad('paused data', 'data received while paused is not kept')
                elif not eq(st, wm, wm0):
                    bad('error data', 'the data of a failed read is kept')
                continue
            check_processing(st, k, d0, lin_add(base, r[4]), tear, bad)
    # writes ----------------------------------------------------------------------------
    ws = [r for r in res if r[0].ts[:1] == ('write',)]
    ctx.require(len(ws) >= 3, 'write handlers')
    for e, outs, thr in ws:
        _, sock, src, opened = e.ts
        if isinstance(src, tuple):
            src = cfg.client if src[1] == cfg.flow['INGRESS'] else cfg.broker
        if opened and src == sock:
            continue            # no such write: an open session forwards to the other side (shown above)
        for st, v, l in outs:
            ctx.count('write_paths')

            def bad(key, text):
                ctx.violation('%s (after a write to the %s)' % (key, side(sock)), text, e.site[1] + ':' + str(e.site[2]), chain(ctx, e) + trace_lines(st))
            cont = [x for x in st.tr if x[0] in ('aread', 'awrite', 'handshake', 'awrite_some')]
            tear = [x for x in st.tr if x[0] in ('close', 'ashutdown', 'disc', 'synth')]
            z = src if opened else sock
            fail = error_path(E, st, e, ctx)
            if opened is None:
                bad('undecided', 'a run is written without regard to whether the session is open')
            if fail is False and not tear:
                if len(cont) != 1:
                    bad('continues once', 'after a completed write there is not exactly one next step')
                elif cont[0][0] == 'aread' and cont[0][1] != z:
                    bad('resumes', 'after data from the %s was forwarded, reading resumes on the %s' % (side(z), side(cont[0][1])))
            for x in st.tr:
                if x[0] == 'release':
                    f = x[1]
                    mine = {data[z]} | partner.get(z, set())
                    if f not in mine:
                        bad('releases', 'a write completion releases the buffers of the other direction')
                    elif zero(st, ('ld', ('fld', T, mark[z]), 0)) is not True and f == data[z]:
                        bad('releases kept data', 'a write completion releases the buffer although it holds unprocessed data')
                if x[0] in ('acquire', 'swap', 'copy'):
                    bad('buffers', 'a write completion changes the buffers')
    for e, outs, thr in res:
        for st, v, l in outs:
            if e.ts[:1] == ('read',):
                continue
            ctx.count('other_paths')
            PR = [x for x in st.tr if x[0] == 'process']
            where = e.site[1] + ':' + str(e.site[2])
            if PR:
                # data kept from an earlier read
                k = cfg.client if num(PR[0][1]) == cfg.flow['INGRESS'] else cfg.broker

                def bad(key, text):
                    ctx.violation('%s (kept data from the %s, in %s)' % (key, side(k), e.name(ctx.P)), text, where, chain(ctx, e) + trace_lines(st))
                if any(x[0] == 'read' for x in st.tr):
                    bad('read outside', 'data is read outside of the read handlers')
                    continue
                i = st.tr.index(PR[0])
                tear = [x for x in st.tr if x[0] in ('close', 'ashutdown', 'disc')]
                check_processing(st, k, ('ld', ('fld', ('fld', T, data[k]), cfg.hp), 0), ('ld', ('fld', T, mark[k]), 0), tear, bad)
                continue
            for x in st.tr:
                if x[0] == 'assign' and x[1] in mark.values() and not ctor(ctx, e):
                    ctx.violation('read mark in ' + e.name(ctx.P), 'the mark of the kept data is changed outside of reading', where, trace_lines(st))
                if x[0] in ('release', 'acquire', 'swap') and e.ts[:1] != ('write',):
                    ctx.violation('buffers in ' + e.name(ctx.P), 'the read buffers are changed outside of the read and write handlers', where, trace_lines(st))
    ctx.done(E)


def self_side(cfg, E, st, k, zi, ze):
    return cfg.cstate_is(E, st, 'OPEN') is True and (zi is False if k == cfg.client else zi is True and ze is False)


def would_block(st, ec):
    for a, v in st.facts.items():
        if a[0] == '==' and ec in a[1:3] and 'would_block' in repr(a):
            return v
    return None


def ctor(ctx, e):
    f = ctx.P.functions.get(e.f[1]) if e.f[0] == 'fn' else None
    return bool(f) and f.get('kind') == 'ctor'


def handler_fn(ctx, e):
    f = e.f
    if f[0] == 'clos':
        for i in f[1]:
            if i in ctx.P.functions:
                return ctx.P.functions[i]
    return None


def error_path(E, st, e, ctx):
    """True if the handler's error argument is set on this path, False if it is clear, None if not looked at"""
    fn = handler_fn(ctx, e)
    if fn is None or not fn['p']:
        return None
    n = fn['p'][0]['n']
    for v in (('arg', n), ('ld', ('obj', n), 0)):
        d = E.decide(st, ('t', v))
        if d is not None:
            return d
    return None
