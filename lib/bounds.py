"""Memory-extent analysis of the wire code: every access through a raw pointer or a Buffer is an obligation
(access inside the extent), discharged by linear-inequality entailment on every abstract path."""
import os
from absint import *
from tab import *
from checklib import NS, loc_of

BUF, HND = NS + 'Buffer', NS + 'BufferHandle'


def le(a, b):
    """fact a <= b"""
    return (('<', b, a), False)


class BoundsEngine(Engine):
    def ev_un(self, e, st, fr):
        if e['op'] == '&' and e['e']['k'] == 'idx':
            x = e['e']
            out = []
            for s, b in self.ev(x['b'], st, fr):
                for s2, i in self.ev(x['i'], s, fr):
                    if b[0] in ('ptr', 'str'):
                        return super().ev_un(e, st, fr)
                    sz = x.get('sz', 1)
                    out.append((s2, lin_add(b, lin_mul(i, ('int', sz)) if sz != 1 else i)))
            return out
        return super().ev_un(e, st, fr)

    def ev_idx(self, e, st, fr):
        out = []
        for s, b in self.ev(e['b'], st, fr):
            for s2, i in self.ev(e['i'], s, fr):
                if b[0] not in ('ptr', 'str', 'list'):
                    self.cfg.access(self, s2, 'r', lin_add(b, lin_mul(i, ('int', e.get('sz', 1))) or i), ('int', e.get('sz', 1)), e, fr)
        for s, l in self.lval(e, st, fr):
            v = self.load(s, l)
            self.set_range(v, e)
            out.append((s, v))
        return out

    def arith(self, op, a, b, node, st):
        ps = node.get('ps')
        if ps and op in ('+', '-') and a[0] not in ('ptr', 'str') and b[0] not in ('ptr', 'str'):
            if ps != 1:
                m = lin_mul(b, ('int', ps))
                b = m if m is not None else ('op', '*', b, ('int', ps))
            return lin_add(a, b, 1 if op == '+' else -1)
        return super().arith(op, a, b, node, st)


class BoundsCfg(EffectCfg):
    linear = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.P = ctx.P
        self.regions = {}
        self.want = None
        self.n = {'r': 0, 'w': 0}
        self.unresolved = 0
        self.viol = []
        self.roles()
        self.contract_fns()
        self.entry = None

    # -- roles taken from the public accessors -----------------------------------------
    def accessor(self, name):
        E = Engine(self.P, Cfg())
        for f in self.ctx.fns(name):
            outs, _ = E.run(f)
            for st, v, l in outs:
                g = field_of(v)
                if g:
                    return g
        self.ctx.require(False, 'accessor ' + name)

    def roles(self):
        self.bp, self.bl, self.bo = self.accessor('Buffer::originalPtr'), self.accessor('Buffer::size'), self.accessor('Buffer::offset')
        self.hp, self.hl = self.accessor('BufferHandle::data'), self.accessor('BufferHandle::size')
        self.rest = self.accessor('PacketProcessor::remaining')
        self.ptrlen = {BUF: (self.bp, self.bl), HND: (self.hp, self.hl),
                       NS + 'Frame': ('payload', 'length'), NS + 'Method': ('payload', 'length')}
        # read marks of a session against the sizes of its read buffers
        self.marks = []
        ctx = self.ctx
        fw, fb = ctx.fns('Session::waterMark'), ctx.fns('Session::bufferHandle')
        ctx.require(fw and fb, 'Session::waterMark / bufferHandle')
        E = Engine(self.P, Cfg())
        m = {}
        for which, f in (('w', fw[0]), ('b', fb[0])):
            for st, v, l in E.run(f)[0]:
                d = tuple(sorted((a[1][1] if a[1][0] == 'enum' else '', x) for a, x in st.facts.items() if a[0] == '=='))
                m.setdefault(d, {})[which] = field_of(l)
        for d, x in m.items():
            if x.get('w') and x.get('b'):
                self.marks.append((x['w'], x['b']))
        ctx.require(len(self.marks) == 2, 'the read mark and read buffer of each direction')

    def contract_fns(self):
        """functions that advance a Buffer given by reference: analysed on their own, used through their contract"""
        self.K = {}
        for f in self.P.functions.values():
            if not f.get('b') or f.get('dep') or f['qn'].startswith(BUF + '::'):
                continue
            for i, p in enumerate(f['p']):
                if p['pm'] == 'ref' and base_qn(p['t'].replace('&', '').strip()) == BUF:
                    self.K[f['id']] = (f, i)
        self.recursive()
        # which of them write
        self.writers = set()
        ch = True
        while ch:
            ch = False
            for fid, (f, i) in self.K.items():
                if fid in self.writers:
                    continue
                for c in calls_in(f['b']):
                    b = base_qn(c.get('qn', ''))
                    if b in (BUF + '::writeIn', BUF + '::assign') or c.get('fn') in self.writers:
                        self.writers.add(fid)
                        ch = True
                        break

    def contract(self, fid):
        """decoders and encoders are used through their contract, other helpers in their calling context"""
        f = self.K[fid][0]
        n = f['qn'].split('<')[0].rsplit('::', 1)[-1].lower()
        return n.startswith('decode') or n.startswith('encode') or fid in self.rec

    def recursive(self):
        self.rec = set()
        g = {fid: {c.get('fn') for c in calls_in(f['b'])} & set(self.K) for fid, (f, i) in self.K.items()}
        for fid in g:
            seen, todo = set(), list(g[fid])
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += g[x]
            if fid in seen:
                self.rec.add(fid)

    def side(self, fr):
        f = fr
        while f is not None and f.fn['qn'].startswith(BUF + '::'):
            n = f.fn['qn'].split('<')[0].rsplit('::', 1)[-1]
            if n in ('copy', 'consume'):
                return 'r'
            if n in ('writeIn', 'assign'):
                return 'w'
            f = f.parent
        if f is None:
            return 'r'
        if f.fn['id'] in self.writers:
            return 'w'
        if any(base_qn(c.get('qn', '')) in (BUF + '::writeIn', BUF + '::assign') or c.get('fn') in self.writers for c in calls_in(f.fn.get('b'))):
            return 'w'
        return 'r'

    # -- facts that always hold --------------------------------------------------------
    def invariants(self, eng, st, facts, goal):
        out = []
        seen = set()
        todo = [goal] + [x for a, v in facts for x in a[1:3]]
        while todo:
            t = todo.pop()
            _, d = to_lin(t)
            for x in d:
                if x in seen:
                    continue
                seen.add(x)
                new = []
                if x[0] == 'ld' and x[1][0] == 'fld' and x[1][2] == self.bo:
                    new = [le(x, ('ld', ('fld', x[1][1], self.bl), x[2]))]
                elif x[0] == 'getf' and x[2] == self.bo:
                    new = [le(x, ('getf', x[1], self.bl))]
                elif x[0] == 'trunc' and not x[2]:
                    new = [le(x, x[3])] if self.nonneg(eng, x[3]) else []
                elif x[0] == 'ld' and x[1][0] == 'fld' and x[1][1] == ('obj', 'this'):
                    for w, b in self.marks:
                        if x[1][2] == w:
                            new = [le(x, ('ld', ('fld', ('fld', ('obj', 'this'), b), self.hl), x[2]))]
                for a, v in new:
                    out.append((a, v))
                    for y in a[1:3]:
                        todo.append(y)
                    for y in to_lin(a[1])[1]:
                        eng.ranges.setdefault(y, (0, (1 << 64) - 1))
        return out

    def nonneg(self, eng, v):
        c, d = to_lin(v)
        return c >= 0 and all(k > 0 and (eng.ranges.get(x, (-1, 0))[0] or 0) >= 0 and x in eng.ranges for x, k in d.items())

    def loop_candidates(self, eng, h, head, changed):
        ks = [k for k in changed if k in h.mem and h.mem[k][0] in ('int', 'enum', 'ld', 'arg', 'lin', 'hv', 'sym', 'lv', 'call', 'getf', 'trunc')]
        out = []
        for k in ks:
            v0 = h.mem[k]
            out.append(lambda s, k=k, v0=v0: lin_add(eng.load(s, k), v0, -1))
            if k[0] == 'fld' and k[2] == self.bo:
                out.append(lambda s, k=k: lin_add(eng.load(s, ('fld', k[1], self.bl)), eng.load(s, k), -1))
        if len(ks) <= 8:
            for i, a in enumerate(ks):
                for b in ks[i + 1:]:
                    for sg in (1, -1):
                        v0 = lin_add(h.mem[a], h.mem[b], sg)
                        out.append(lambda s, a=a, b=b, sg=sg, v0=v0: lin_add(lin_add(eng.load(s, a), eng.load(s, b), sg), v0, -1))
                        out.append(lambda s, a=a, b=b, sg=sg, v0=v0: lin_add(v0, lin_add(eng.load(s, a), eng.load(s, b), sg), -1))
        return out

    # -- regions -----------------------------------------------------------------------
    def on_load(self, eng, st, l, node, fr):
        if l[0] == 'fld' and node.get('fc') == NS + 'Method' and eng.load(st, l)[0] == 'undef' and not eng.quiet:
            self.fail(eng, st, 'r', node, fr, 'use of a method that was not decoded', 'member %s' % l[2])
        if l[0] == 'fld' and node.get('fc') in self.ptrlen:
            pf, lf = self.ptrlen[node['fc']]
            if l[2] == pf:
                v = eng.load(st, l)
                if v[0] in ('ld', 'hv', 'lv', 'getf', 'call', 'sym') and v not in self.regions:
                    n = eng.load(st, ('fld', l[1], lf))
                    if n[0] not in ('int', 'enum', 'lin'):
                        w = 32 if node['fc'] == NS + 'Frame' else 64
                        eng.ranges.setdefault(n, (0, (1 << w) - 1))
                    self.regions[v] = n

    def base(self, p):
        """(base term, offset) of a pointer value"""
        c, d = to_lin(p)
        b = [x for x, k in d.items() if k == 1 and x in self.regions]
        if len(b) != 1:
            return None
        d = dict(d)
        del d[b[0]]
        return b[0], from_lin(c, d)

    def live(self, st, r):
        return any(mentions(a, lambda t: t == r) for a in st.facts)

    def access(self, eng, st, side, p, n, node, fr, what='access', own=None):
        """obligation: [p, p+n) lies inside the extent p points into"""
        if eng.quiet:
            return
        if p[0] == 'str':
            k = num(n)
            self.n[side] += 1
            if k is None or k > len(p[1]) + 1:
                self.fail(eng, st, side, node, fr, what, '%s bytes of a literal of %d' % (pp(n), len(p[1])))
            return
        if num(n) == 0:
            return
        b = self.base(p)
        if b is None:
            # an extent the pointer is known to lie in?
            cand = [r for r in self.regions if self.live(st, r) and eng.entails(st, lin_add(p, r, -1))]
            if not cand:
                self.unresolved += 1
                if os.environ.get('VP_DEBUG'):
                    print('unresolved', what, pp(p)[:150], pp(n)[:80], fn_key(fr.fn), node.get('l'))
                return
            self.n[side] += 1
            if not any(eng.entails(st, lin_add(lin_add(r, self.regions[r]), lin_add(p, n), -1)) for r in cand):
                self.fail(eng, st, side, node, fr, what, '%s bytes at %s of the extents %s' % (pp(n), pp(p), ', '.join('%s+%s' % (pp(r), pp(self.regions[r])) for r in cand)))
            return
        b, off = b
        self.n[side] += 1
        size = self.regions[b]
        lo = eng.entails(st, off)
        hi = eng.entails(st, lin_add(size, lin_add(off, n), -1))
        if not (lo and hi):
            self.fail(eng, st, side, node, fr, what, '%s bytes at offset %s of an extent of %s bytes' % (pp(n), pp(off), pp(size)))

    def fail(self, eng, st, side, node, fr, what, text):
        f = fr
        while f.parent is not None and f.fn['qn'].startswith(BUF + '::'):
            f = f.parent
        line = node.get('l') if f is fr else None
        chain_ = []
        g = fr
        while g is not None:
            chain_.append('in %s' % fn_key(g.fn))
            g = g.parent
        self.viol.append((side, '%s in %s' % (what, fn_key(f.fn)),
                          '%s: cannot be shown to stay inside: %s' % (what, text),
                          '%s:%s' % (f.fn['file'].split('/repo/')[-1], line or f.fn['l']),
                          chain_ + trace_lines(st)))

    def on_store(self, eng, st, loc, val, node, fr):
        if loc[0] == 'fld' and loc[2] == self.bo and fr is not None and fr.fn.get('kind') != 'ctor' and \
                not (node and node.get('k') == 'call'):
            # the position of a Buffer stays within its length
            n = eng.load(st, ('fld', loc[1], self.bl))
            side = self.side(fr)
            if not eng.quiet:
                self.n[side] += 1
                if not (eng.entails(st, lin_add(n, val, -1)) and eng.entails(st, val)):
                    self.fail(eng, st, side, node, fr, 'moving the position of a buffer',
                              'new position %s, length %s' % (pp(val), pp(n)))
            # go on as if it held
            st = st.copy()
            st.facts[('<', n, val)] = False
            st.facts[('<', val, ('int', 0))] = False
        elif loc[0] == 'elem' and isinstance(loc[2], tuple):
            p = loc[1][1] if loc[1][0] == 'deref' else eng.load(st, loc[1])
            x = node.get('x') or node.get('e') or {}
            if self.base(p) is not None:
                sz = x.get('sz', 1)
                self.access(eng, st, 'w', lin_add(p, lin_mul(loc[2], ('int', sz)) or loc[2]), ('int', sz), node, fr, 'store')
        return st

    # -- calls -------------------------------------------------------------------------
    def fresh(self, eng, st, c, tag, lo=0, hi=(1 << 64) - 1):
        s, t = eng.site(st, c.fr, c.node)
        v = ('sym', tag, t)
        eng.ranges.setdefault(v, (lo, hi))
        return s, v

    def objsize(self, node):
        while node.get('k') in ('cast', 'icast') and node.get('e'):
            node = node['e']
        return node.get('sz') if node.get('k') == 'un' and node.get('op') == '&' else None

    def advance(self, eng, st, c, l, lo):
        """the contract of a function that decodes from / encodes into the Buffer at l"""
        off0 = eng.load(st, ('fld', l, self.bo))
        n = eng.load(st, ('fld', l, self.bl))
        s, v = self.fresh(eng, st, c, 'pos')
        s = s.copy()
        s.mem[('fld', l, self.bo)] = v
        s.facts[('<', v, off0)] = False
        s.facts[('<', n, v)] = False
        return s

    def on_call(self, eng, st, c):
        b, n, a = c.bqn, c.name, c.args
        if b.startswith('boost::log') or b.startswith(NS + 'Logging'):
            return [(st, ('unk', n), None)]
        if n in ('memcpy', 'memmove', '__builtin_memcpy') and len(a) == 3:
            for i, sd in ((1, 'r'), (0, 'w')):
                p = a[i]
                if p[0] == 'ptr':
                    sz = self.objsize(c.node['a'][i])
                    if sz is not None and not eng.quiet:
                        self.n[sd] += 1
                        if not eng.entails(st, lin_add(('int', sz), a[2], -1)):
                            self.fail(eng, st, sd, c.node, c.fr, n, '%s bytes of an object of %d' % (pp(a[2]), sz))
                else:
                    self.access(eng, st, sd, p, a[2], c.node, c.fr, n)
            if a[0][0] == 'ptr':
                s, tag = eng.site(st, c.fr, c.node)
                s = eng.havoc(s, a[0][1], (tag, 0))
                return [(s, ('void',), None)]
            return [(st, ('void',), None)]
        if n == 'memcmp' and len(a) == 3:
            self.access(eng, st, 'r', a[0], a[2], c.node, c.fr, n)
            self.access(eng, st, 'r', a[1], a[2], c.node, c.fr, n)
            return [(st, ('call', 'memcmp', (), a), None)]
        if b.startswith('std::'):
            if n in ('assign', 'append') and len(a) == 2 and 'basic_string' in b:
                self.access(eng, st, 'r', a[0], a[1], c.node, c.fr, 'string ' + n)
                return None
            if n in ('basic_string', 'basic_string_view') and c.node.get('k') == 'ctor' and len(a) >= 2 and \
                    c.node['a'][1].get('w'):
                self.access(eng, st, 'r', a[0], a[1], c.node, c.fr, 'string')
                return None
            if c.node.get('o') is not None and c.recvloc is not None:
                if n == 'resize' and a:
                    s, tag = eng.site(st, c.fr, c.node)
                    s = eng.store_raw(s, c.recvloc, ('sized', tag, a[0]))
                    return [(s, ('void',), None)]
                if n in ('size', 'length') and c.recv[0] == 'sized':
                    return [(st, c.recv[2], None)]
                if n in ('data', 'c_str') and c.recv[0] != 'str':
                    v = ('sdata', c.recv)
                    if c.recv[0] == 'sized':
                        self.regions.setdefault(v, c.recv[2])
                    else:
                        t = ('size', c.recv)
                        eng.ranges.setdefault(t, (0, 1 << 62))
                        self.regions.setdefault(v, t)
                    return [(st, v, None)]
        if b == 'boost::asio::buffer' and len(a) == 2:
            self.access(eng, st, 'r', a[0], a[1], c.node, c.fr, 'asio buffer')
            return [(st, ('abuf', a[0], a[1]), None)]
        if n == 'read_some' and a and a[0][0] == 'abuf':
            s, v = self.fresh(eng, st, c, 'nread')
            s = s.copy()
            s.facts[('<', a[0][2], v)] = False
            for i, l in enumerate(c.locs):
                if l is not None and i > 0:
                    s = eng.havoc(s, l, (v, i))
            return [(s, v, None)]
        if b == NS + 'BufferPool::acquireBuffer' and len(a) == 2:
            h = a[0]
            l = eng.deref(st, h)
            s, v = self.fresh(eng, st, c, ('mem', a[1]))
            s = s.copy()
            s.mem[('fld', l, self.hp)] = v
            s.mem[('fld', l, self.hl)] = a[1]
            self.regions[v] = a[1]
            return [(s, ('void',), None)]
        if b == BUF + '::Buffer' and c.node.get('k') == 'ctor' and len(a) == 2:
            if a[0][0] != 'null':
                self.access(eng, st, self.side(c.fr), a[0], a[1], c.node, c.fr, 'buffer over')
            return None
        if b in (BUF + '::writeIn', BUF + '::assign') and c.fn in self.P.functions and c.fr is not None and \
                not c.fr.fn['qn'].startswith(BUF + '::'):
            fn = self.P.functions[c.fn]
            if fn.get('b') and not fn.get('dep'):
                out = []
                for s, v, l in eng.inline(fn, st, eng.addr(c.recvloc), a, c.locs, c.fr, c.node):
                    if v == FALSE:
                        s = s.emit('wfail', 'Buffer::' + n)
                    out.append((s, v, l))
                return out
        if b == NS + 'Frame::decode' and len(a) == 5:
            return self.frame_decode(eng, st, c)
        if b == NS + 'Frame::encode' and len(a) == 3:
            return self.frame_encode(eng, st, c)
        if b == NS + 'Method::decode' and c.fn in self.P.functions and c.fr is not None:
            fn = self.P.functions[c.fn]
            out = []
            for s, v, l in eng.inline(fn, st, None, a, c.locs, c.fr, c.node):
                if v == FALSE and a[0][0] == 'ptr':
                    s = s.copy()
                    for x in ('classType', 'methodType', 'payload', 'length'):
                        k = ('fld', a[0][1], x)
                        if k not in s.mem:
                            s.mem[k] = ('undef', x)
                out.append((s, v, l))
            return out
        if c.fn in self.K and c.fr is not None and not self.contract(c.fn):
            if c.fn not in c.fr.stack:
                fn = self.P.functions[c.fn]
                return eng.inline(fn, st, None if not fn.get('m') or fn.get('st') else eng.addr(c.recvloc), a, c.locs, c.fr, c.node)
        if c.fn in self.K and c.fr is not None:
            f, i = self.K[c.fn]
            l = c.locs[i] if i < len(c.locs) else None
            if l is not None:
                s = self.advance(eng, st, c, l, None)
                s2, tag = eng.site(s, c.fr, c.node)
                s = s2
                for j, p in enumerate(f['p']):
                    if j == i:
                        continue
                    if p['pm'] == 'ref' and c.locs[j] is not None:
                        s = eng.havoc(s, c.locs[j], (tag, j))
                    elif p['pm'] == 'ptr' and a[j][0] == 'ptr':
                        s = eng.havoc(s, a[j][1], (tag, j))
                if f['rt'] == 'bool':
                    w = c.fn in self.writers
                    return [(s, TRUE, None), (s.emit('wfail' if w else 'dfail', fn_key(f)), FALSE, None)]
                return [(s, ('void',), None)]
        fn = self.P.functions.get(c.fn)
        if fn is not None and fn.get('b') and fn['qn'].startswith(NS + 'Connector::receive'):
            for i, p in enumerate(fn['p']):
                if base_qn(p['t'].replace('const', '').replace('&', '').strip()) == NS + 'Method' and c.locs[i] is not None:
                    if eng.load(st, ('fld', c.locs[i], 'payload'))[0] == 'undef' and not eng.quiet:
                        self.fail(eng, st, 'r', c.node, c.fr, 'use of a method that was not decoded', 'received by the connector')
                    self.access(eng, st, 'r', eng.load(st, ('fld', c.locs[i], 'payload')), eng.load(st, ('fld', c.locs[i], 'length')), c.node, c.fr, 'method payload')
            return [(st, ('void',), None)]
        if b == NS + 'PacketProcessor::process' and c.recvloc is not None:
            s, tag = eng.site(st, c.fr, c.node)
            r = self.P.records[NS + 'PacketProcessor']
            for x in r['fields']:
                if base_qn(x['t']) == BUF:
                    s = eng.havoc(s, ('fld', c.recvloc, x['n']), (tag, x['n']))
                    if x['n'] == self.rest:
                        s.mem[('fld', ('fld', c.recvloc, x['n']), self.bo)] = ('int', 0)
            return [(s, ('void',), None)]
        if fn is not None and fn['qn'].startswith(NS + 'Session::') and not fn.get('lam') and fn.get('m') and not self.inline(eng, fn) \
                and not c.node.get('cst'):
            # another part of the session ran: the read marks are unknown again, within their buffers
            s = st
            T = ('obj', 'this')
            for w, h in self.marks:
                s, v = self.fresh(eng, s, c, 'mark-' + w)
                s, z = self.fresh(eng, s, c, 'size-' + w)
                s, d = self.fresh(eng, s, c, 'data-' + w)
                s = s.copy()
                s.mem[('fld', T, w)] = v
                s.mem[('fld', ('fld', T, h), self.hl)] = z
                s.mem[('fld', ('fld', T, h), self.hp)] = d
                self.regions[d] = z
                s.facts[('<', z, v)] = False
            return [(s, ('call', b, (), (), eng.site(s, c.fr, c.node)[1]), None)]
        return None

    def after_call(self, eng, st, c, val):
        return None

    def frame_decode(self, eng, st, c):
        fr_, eof, rem, buf, ln = c.args
        self.access(eng, st, 'r', buf, ln, c.node, c.fr, 'frame decode')
        s, E = self.fresh(eng, st, c, 'next')
        s, R = self.fresh(eng, s, c, 'rest')
        s, p = self.fresh(eng, s, c, 'payload')
        s, n = self.fresh(eng, s, c, 'len', 0, (1 << 32) - 1)
        s = s.copy()
        f = eng.deref(s, fr_)
        s, tag = eng.site(s, c.fr, c.node)
        s = eng.havoc(s, f, (tag, 'f'))
        s.mem[('fld', f, 'payload')] = p
        s.mem[('fld', f, 'length')] = n
        self.regions[p] = n
        s.mem[eng.deref(s, eof)] = E
        s.mem[eng.deref(s, rem)] = R
        tot0, tot1 = lin_add(buf, ln), lin_add(E, R)
        s.facts[('<', tot0, tot1)] = False
        s.facts[('<', tot1, tot0)] = False
        s.facts[('<', E, lin_add(buf, ('int', 8)))] = False
        return [(s, TRUE, None), (st, FALSE, None)]

    def frame_encode(self, eng, st, c):
        out, ws, frm = c.args
        fl = c.locs[2] if c.locs[2] is not None else eng.tmploc(frm)
        n = eng.load(st, ('fld', fl, 'length'))
        p = eng.load(st, ('fld', fl, 'payload'))
        w0 = eng.load(st, eng.deref(st, ws))
        self.access(eng, st, 'r', p, n, c.node, c.fr, 'frame payload')
        self.access(eng, st, 'w', out, lin_add(n, ('int', 8)), c.node, c.fr, 'frame output')
        if not eng.quiet and num(w0) != 0:
            self.fail(eng, st, 'w', c.node, c.fr, 'frame output', 'the count of written bytes does not start at zero (%s)' % pp(w0))
        s = st.copy()
        s.mem[eng.deref(s, ws)] = lin_add(n, ('int', 8))
        return [(s, TRUE, None), (st.emit('wfail', 'Frame::encode'), FALSE, None)]

    def inline(self, eng, fn):
        if fn['qn'].startswith('boost::') or fn['qn'].startswith('std::'):
            return False
        q = fn['qn']
        if q.startswith(NS + 'Session::'):
            return fn.get('file', '').endswith('.h')
        if q.startswith(NS + 'Connector::'):
            return True
        return not any(q.startswith(NS + x) for x in ('SessionState::', 'EventSource', 'FieldTable::', 'FieldValue::', 'MaybeSecureSocketAdaptor', 'ConnectorUtil'))


def mentions_wire(f):
    """does the function itself handle raw extents?"""
    for c in calls_in(f['b']):
        b = base_qn(c.get('qn', ''))
        if b in ('memcpy', 'memmove', 'memcmp') or b.startswith(BUF + '::') or \
           b in (NS + 'Session::waterMark', NS + 'Session::bufferHandle', NS + 'Session::copyRemaining', NS + 'Session::readBuffer'):
            return True
    return has_buf_ctor(f['b'])


def has_buf_ctor(n):
    if isinstance(n, dict):
        if n.get('k') == 'ctor' and n.get('cl') == BUF and len(n.get('a', ())) == 2 and not n.get('cm'):
            return True
        return any(has_buf_ctor(v) for v in n.values() if isinstance(v, (dict, list)))
    if isinstance(n, list):
        return any(has_buf_ctor(v) for v in n if isinstance(v, (dict, list)))
    return False


def analyse(ctx):
    cfg = BoundsCfg(ctx)
    cands = []
    for f in ctx.P.functions.values():
        if not f.get('b') or f.get('dep') or not f['file'].startswith('libamqpprox/'):
            continue
        if f['qn'].startswith(BUF + '::'):
            if base_qn(f['qn']) in (BUF + '::writeIn', BUF + '::assign'):
                cands.append(f)       # these check for themselves, whoever calls
            continue
        if f['id'] in cfg.K or mentions_wire(f):
            cands.append(f)
    cfg.session_entries = {f['id'] for f in cands}
    eng = BoundsEngine(ctx.P, cfg)
    fd, fe, md = ctx.fn('Frame::decode'), ctx.fn('Frame::encode'), ctx.fn('Method::decode')
    names = []
    connector = NS + 'Connector::'
    for f in cands:
        q = f['qn']
        if f['id'] in cfg.K and not cfg.contract(f['id']) and any(c.get('fn') == f['id'] for g in cands for c in calls_in(g['b'])):
            continue                      # a helper, analysed inside its callers
        if q.split('<')[0] == connector + 'sendResponse' or (q.startswith(connector) and f.get('acc', 0) != 0):
            continue                      # analysed inside its callers
        if q.startswith(NS + 'Session::') and f.get('acc', 0) != 0 and f['file'].endswith('.h') and not f.get('lam'):
            continue
        names.append(f)
    ctx.require(len(names) >= 30, 'functions that handle wire data')
    for f in sorted(names, key=lambda f: f['id']):
        cfg.entry = f
        st = St()
        pre = {}
        for i, p in enumerate(f['p'][:-1]):
            q = f['p'][i + 1]
            if p['pm'] in ('ptr', 'cptr') and p['t'].rstrip().endswith('void *') and q.get('w') == 64:
                cfg.regions[('arg', p['n'])] = ('arg', q['n'])
                eng.ranges[('arg', q['n'])] = (0, (1 << 62))
        if f is fe:
            o = ('arg', f['p'][0]['n'])
            n = ('ld', ('fld', ('obj', f['p'][2]['n']), 'length'), 0)
            eng.ranges[n] = (0, (1 << 32) - 1)
            cfg.regions[o] = lin_add(n, ('int', 8))
            st.mem[('deref', ('arg', f['p'][1]['n']))] = ('int', 0)
        T = ('obj', 'this')
        if f['qn'].startswith(connector):
            reply = ctx_fields(ctx, connector[:-2], cfg)
            if reply:
                b, h = reply
                st.facts[('<', ('ld', ('fld', ('fld', T, h), cfg.hl), 0), ('ld', ('fld', ('fld', T, b), cfg.bl), 0))] = False
                eng.ranges.setdefault(('ld', ('fld', ('fld', T, h), cfg.hl), 0), (0, 1 << 62))
                eng.ranges.setdefault(('ld', ('fld', ('fld', T, b), cfg.bl), 0), (0, 1 << 62))
        outs, thr = eng.run(f, st=st)
        ctx.count('functions')
        ctx.count('paths', len(outs) + len(thr))

        def bad(side, key, text, s):
            cfg.viol.append((side, key, text, loc_of(f), trace_lines(s)))
        for s, v, l in outs:
            if f['id'] in cfg.K:
                _, i = cfg.K[f['id']]
                L = ('obj', f['p'][i]['n'])
                side = 'w' if f['id'] in cfg.writers else 'r'
                if eng.load(s, ('fld', L, cfg.bp)) != ('ld', ('fld', L, cfg.bp), 0) or \
                   eng.load(s, ('fld', L, cfg.bl)) != ('ld', ('fld', L, cfg.bl), 0):
                    bad(side, 'extent changed by ' + fn_key(f), 'the caller\'s buffer comes back with another extent', s)
                if not eng.entails(s, lin_add(eng.load(s, ('fld', L, cfg.bo)), ('ld', ('fld', L, cfg.bo), 0), -1)):
                    bad(side, 'position moved back by ' + fn_key(f), 'the caller\'s buffer comes back with its position moved back', s)
            fails = {e[0]: e[1] for e in s.tr if e[0] in ('wfail', 'dfail')}
            if fails and (f['rt'] == 'bool' or 'dfail' in fails):
                for k, x in fails.items():
                    if v != FALSE and not (k == 'dfail' and f['rt'] != 'bool' and f['qn'].startswith(connector)):
                        if k == 'wfail' and f['rt'] != 'bool':
                            continue
                        bad('w' if k == 'wfail' else 'r', 'failure of %s in %s' % (x, fn_key(f)),
                            '%s fails (%s) and %s does not report it' % (x, 'out of space' if k == 'wfail' else 'too short', fn_key(f)), s)
            if f is fd:
                if v == TRUE:
                    bv, bn = ('arg', f['p'][3]['n']), ('arg', f['p'][4]['n'])
                    E = eng.load(s, ('deref', ('arg', f['p'][1]['n'])))
                    R = eng.load(s, ('deref', ('arg', f['p'][2]['n'])))
                    F = ('deref', ('arg', f['p'][0]['n']))
                    d = lin_add(lin_add(bv, bn), lin_add(E, R), -1)
                    if not (eng.entails(s, d) and eng.entails(s, lin_add(('int', 0), d, -1))):
                        bad('r', 'rest of the data after a frame', 'after a frame, the reported rest (%s bytes at %s) is not the rest of the data' % (pp(R), pp(E)), s)
                    if not eng.entails(s, lin_add(lin_add(E, bv, -1), ('int', -8))):
                        bad('r', 'frame makes no progress', 'an accepted frame ends at %s' % pp(E), s)
                    cfg.access(eng, s, 'r', eng.load(s, ('fld', F, 'payload')), eng.load(s, ('fld', F, 'length')), {'l': f['l']}, Frame(f, 0, None, (), 0), 'frame payload')
            if f is md and v == TRUE:
                M = ('deref', ('arg', f['p'][0]['n']))
                cfg.access(eng, s, 'r', eng.load(s, ('fld', M, 'payload')), eng.load(s, ('fld', M, 'length')), {'l': f['l']}, Frame(f, 0, None, (), 0), 'method payload')
            if f['qn'].startswith(NS + 'Session::') or 'Session::' in (f.get('enc') or ''):
                for w, h in cfg.marks:
                    a = eng.load(s, ('fld', T, w))
                    b = eng.load(s, ('fld', ('fld', T, h), cfg.hl))
                    if ('fld', T, w) in s.mem or ('fld', ('fld', T, h), cfg.hl) in s.mem:
                        cfg.n['r'] += 1
                        if not eng.entails(s, lin_add(b, a, -1)):
                            bad('r', '%s in %s' % (w, fn_key(f)), 'the read mark (%s) may exceed the read buffer (%s)' % (pp(a), pp(b)), s)
            if f['qn'] == NS + 'PacketProcessor::process':
                x = cfg.rest
                if any(climb(('fld', T, x), k) is not None for k in s.mem if k[0] == 'fld') and num(eng.load(s, ('fld', ('fld', T, x), cfg.bo))) != 0:
                    bad('r', 'position of ' + x, 'the rest of the data after processing a packet does not start at its first byte', s)
            if f['qn'].startswith(connector):
                reply = ctx_fields(ctx, connector[:-2], cfg)
                b, h = reply
                n = eng.load(s, ('fld', ('fld', T, b), cfg.bl))
                m = eng.load(s, ('fld', ('fld', T, h), cfg.hl))
                stf = eng.load(s, ('fld', T, 'd_state'))
                if not eng.entails(s, lin_add(m, n, -1)) and not (stf[0] == 'enum' and stf[1].endswith('::ERROR')):
                    bad('r', 'pending reply after ' + fn_key(f), 'the pending reply (%s bytes) is not backed by the reply buffer (%s bytes)' % (pp(n), pp(m)), s)
    return cfg, eng


def ctx_fields(ctx, cls, cfg):
    r = ctx.P.records.get(cls)
    b = [x['n'] for x in r['fields'] if base_qn(x['t']) == BUF]
    h = [x['n'] for x in r['fields'] if base_qn(x['t']) == HND]
    ctx.require(len(b) == 1 and len(h) == 1, 'reply buffer of ' + cls)
    return b[0], h[0]


def report(ctx, side):
    cfg, eng = analyse(ctx)
    ctx.count('obligations', cfg.n[side])
    ctx.count('accesses not through a known extent', cfg.unresolved)
    for sd, key, text, where, path in cfg.viol:
        if sd == side or 'Session::' in key or 'Connector::' in key or 'Frame::encode' in key:
            # where received data is moved around, both hang together
            ctx.violation(key, text, where, path)
    ctx.require(cfg.n[side] >= 20, 'obligations')
    ctx.done(eng)
