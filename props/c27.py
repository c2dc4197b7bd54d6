"""C27: pooled buffers have one owner and go back, once, to where they came from."""
from checklib import *
from tab import *

EXPLANATION = ('Ownership laws of the buffer handle (what every method does with the buffer it holds, for every state of the handle), the pairing of allocation and release in the source, '
               'the choice of source in the pool, and a census of all places that use these operations.')
T = ('obj', 'this')
H, S, PL = NS + 'BufferHandle', NS + 'BufferSource', NS + 'BufferPool'


class C(EffectCfg):
    linear = True
    heap_events = True

    def inline(self, eng, fn):
        return fn.get('cl') == H or fn['file'].endswith(('amqpprox_bufferhandle.cpp', 'amqpprox_bufferhandle.h', 'amqpprox_bufferpool.cpp', 'amqpprox_bufferpool.h')) and fn.get('cl') != S

    def boundary(self, eng, st, c):
        if c.bqn.startswith(S + '::') and c.node.get('k') != 'ctor':
            who = ptr_of(c)
            if c.name == 'acquire':
                s, t = eng.site(st.emit('acquire', who), c.fr, c.node)
                return [(s, ('buf', who, t), None)]
            if c.name == 'release':
                return [(st.emit('giveback', who, c.args[0]), ('void',), None)]
            if c.name == 'bufferSize':
                v = ('bufsize', who)
                eng.ranges.setdefault(v, (0, 1 << 62))
                return [(st, v, None)]
        return super().boundary(eng, st, c)


def ptr_of(c):
    l = c.recvloc
    if l is not None and l[0] == 'deref':
        return l[1]
    return ('ptr', l) if l is not None else c.recv


def roles(ctx):
    r = {}
    E = Engine(ctx.P, C())
    fn = [f for f in ctx.fns('BufferHandle::BufferHandle') if len(f['p']) == 3]
    ctx.require(fn, 'constructor of BufferHandle')
    f = fn[0]
    for st, v, l in E.run(f)[0]:
        for k, x in st.mem.items():
            if k[0] == 'fld' and k[1] == T:
                for i, n in enumerate(('data', 'size', 'source')):
                    if x in argval(f, i):
                        r[n] = k[2]
    if set(r) != {'data', 'size', 'source'}:
        ctx.violation('handle constructor', 'a handle does not hold the buffer, size and source it is given', loc_of(f))
        return None
    return r


def given(st):
    """what is given back on a path: list of (pointer value, source or None)"""
    out = []
    for e in st.tr:
        if e[0] == 'giveback':
            out.append((e[2], e[1]))
        elif e[0] == 'delete':
            out.append((e[1], None if e[2] else 'wrong form of delete'))
    return out


def run(ctx):
    ctx.rule('handle: release, assignment and destruction give the buffer held back exactly once (to its source, or to the heap if it has none) and forget it; swap exchanges all of it; there is no other way to copy or change ownership')
    ctx.rule('source: acquire and release pair the same pool, whose chunk size is the size announced')
    ctx.rule('pool: the handle gets a buffer of the first suitable source together with that very source, or a heap buffer of the size asked for and no source')
    r = roles(ctx)
    if r is None:
        return
    D, N, SR = (('ld', ('fld', T, r[k]), 0) for k in ('data', 'size', 'source'))
    E = Engine(ctx.P, C())
    n = 0
    for f in ctx.P.functions.values():
        if f.get('cl') != H or not f.get('b') or f.get('lam'):
            continue
        m = base_qn(f['qn']).rsplit('::', 1)[-1]
        copyish = len(f['p']) == 1 and 'BufferHandle' in f['p'][0]['t']
        for st, v, l in E.run(f)[0]:
            n += 1
            ctx.count('handle_paths')
            bad = lambda k, t: ctx.violation('%s: %s' % (m, k), '%s: %s' % (m, t), loc_of(f), trace_lines(st))
            post = {k: E.load(st, ('fld', T, r[k])) for k in r}
            gb = given(st)
            writes = any(e[0] == 'assign' and e[1] in r.values() for e in st.tr)
            ctor = m == 'BufferHandle'
            if ctor and not copyish:
                if gb:
                    bad('gives back', 'a new handle gives a buffer back')
                if not f['p'] and (post['data'] != ('null',) or post['source'] != ('null',)):
                    bad('empty', 'an empty handle holds something')
                continue
            if m == 'swap' or copyish and m in ('swap',):
                o = {k: ('ld', ('fld', ('obj', f['p'][0]['n']), r[k]), 0) for k in r}
                po = {k: E.load(st, ('fld', ('obj', f['p'][0]['n']), r[k])) for k in r}
                old = {'data': D, 'size': N, 'source': SR}
                if gb:
                    bad('gives back', 'swapping gives a buffer back')
                for k in r:
                    if post[k] != o[k] or po[k] != old[k]:
                        bad('exchange ' + k, 'swapping does not exchange the %s of the two handles' % k)
                continue
            if copyish:
                src = f['p'][0]['n']
                po = {k: E.load(st, ('fld', ('obj', src), r[k])) for k in r}
                o = {k: ('ld', ('fld', ('obj', src), r[k]), 0) for k in r}
                if po['data'] != ('null',) and po['data'] == o['data'] and post['data'] == o['data']:
                    bad('two owners', 'after copying or moving a handle two handles own the buffer')
                if not ctor and not gave(E, st, D, SR, gb):
                    bad('lost', 'the buffer held before is not given back exactly once')
                continue
            if not writes and not gb:
                if m.startswith('~'):
                    if E.decide(st, ('t', SR)) is not False or E.decide(st, ('t', D)) is not False:
                        bad('leak', 'a destroyed handle does not give its buffer back')
                continue
            # anything that gives back or changes what is held
            if not gave(E, st, D, SR, gb):
                bad('give back', 'the buffer held is not given back exactly once to where it came from (given back: %s)' % [tuple(map(pp, (a, b or ('heap',)))) if not isinstance(b, str) else b for a, b in gb])
            if m.startswith('~'):
                continue
            if m == 'assign' or len(f['p']) == 3:
                for i, k in enumerate(('data', 'size', 'source')):
                    if post[k] not in argval(f, i):
                        bad('takes ' + k, 'the handle does not take the %s it is given' % k)
            else:
                if post['data'] != ('null',) or post['source'] != ('null',):
                    bad('kept', 'after giving the buffer back the handle still holds it: it would be given back twice')
                if num(post['size']) not in (0, None) or num(post['size']) is None:
                    bad('size kept', 'after giving the buffer back the handle still has a size')
    ctx.require(n >= 5, 'methods of BufferHandle')
    for q, k in (('data', 'data'), ('size', 'size')):
        for f in ctx.fns('BufferHandle::' + q):
            for st, v, l in E.run(f)[0]:
                if v != ('ld', ('fld', T, r[k]), 0):
                    ctx.violation('accessor ' + q, 'the %s reported is not the one held' % q, loc_of(f))
    ctx.done(E)
    source(ctx)
    pool(ctx)
    census(ctx)


def gave(E, st, D, SR, gb):
    s, d = E.decide(st, ('t', SR)), E.decide(st, ('t', D))
    if s is True:
        return gb == [(D, SR)]
    if s is False:
        if d is False:
            return gb == [] or gb == [(D, None)]
        return gb == [(D, None)]
    return d is False and gb == []


def source(ctx):
    rec = ctx.record('BufferSource')
    pools = [f['n'] for f in rec['fields'] if 'pool' in f['t']]
    ctx.require(len(pools) == 1, 'the pool of a source')
    p = pools[0]

    class K(EffectCfg):
        linear = True

        def inline(self, eng, fn):
            return fn.get('cl') == S

        def boundary(self, eng, st, c):
            if c.node.get('o') is not None and field_of(c.recvloc) == p and c.node.get('k') != 'ctor':
                s, t = eng.site(st.emit('pool', c.name, c.args), c.fr, c.node)
                return [(s, ('chunk', c.name, t), None)]
            return super().boundary(eng, st, c)
    E = Engine(ctx.P, K())
    f = ctx.fn('BufferSource::acquire')
    for st, v, l in E.run(f)[0]:
        ctx.count('source_paths')
        ev = [e for e in st.tr if e[0] == 'pool']
        if len(ev) != 1 or ev[0][1] not in ('malloc', 'ordered_malloc') or v[:2] != ('chunk', ev[0][1]) or ev[0][2]:
            ctx.violation('acquire', 'a buffer handed out is not one chunk of the pool', loc_of(f), trace_lines(st))
        elif E.decide(st, ('t', v)) is not True:
            ctx.violation('acquire null', 'a failed allocation is handed out as a buffer', loc_of(f), trace_lines(st))
    f = ctx.fn('BufferSource::release')
    for st, v, l in E.run(f)[0]:
        ctx.count('source_paths')
        ev = [e for e in st.tr if e[0] == 'pool']
        if len(ev) != 1 or ev[0][1] not in ('free', 'ordered_free') or ev[0][2][0] not in argval(f, 0) or len(ev[0][2]) != 1:
            ctx.violation('release', 'a buffer given back does not return to the pool exactly once', loc_of(f), trace_lines(st))
    f = ctx.fn('BufferSource::bufferSize')
    size = None
    for st, v, l in E.run(f)[0]:
        size = field_of(v) if v[0] == 'ld' else None
    for f in ctx.fns('BufferSource::BufferSource'):
        if len(f['p']) != 1 or 'BufferSource' in f['p'][0]['t']:
            continue
        for st, v, l in E.run(f)[0]:
            pv = E.load(st, ('fld', T, p))
            sv = E.load(st, ('fld', T, size)) if size else None
            a = argval(f, 0)
            if sv not in a:
                ctx.violation('announced size', 'the size announced by a source is not the one it was made for', loc_of(f), trace_lines(st))
            if not (pv[0] == 'mk' and pv[2] and pv[2][0] in a):
                ctx.violation('chunk size', 'the chunks of the pool are not of the size the source was made for: %s' % pp(pv)[:120], loc_of(f), trace_lines(st))
    for f in ctx.P.functions.values():
        if f.get('cl') == S and f.get('b') and not f.get('lam') and f['qn'].rsplit('::', 1)[-1] not in ('acquire', 'release'):
            for st, v, l in E.run(f)[0]:
                if any(e[0] == 'pool' for e in st.tr) and f.get('kind') not in ('ctor', 'dtor'):
                    ctx.violation('pool used in ' + fn_key(f), 'the pool is changed elsewhere than on acquire and release', loc_of(f), trace_lines(st))
    ctx.done(E)


def pool(ctx):
    class K(C):
        def boundary(self, eng, st, c):
            if c.bqn == H + '::assign':
                return [(st.emit('assign-handle', c.recvloc, c.args), ('void',), None)]
            return super().boundary(eng, st, c)
    f = ctx.fn('BufferPool::acquireBuffer')
    E = Engine(ctx.P, K())
    hi = [i for i, p in enumerate(f['p']) if 'BufferHandle' in p['t']]
    si = [i for i, p in enumerate(f['p']) if i not in hi]
    ctx.require(len(hi) == 1 and len(si) == 1, 'parameters of acquireBuffer')
    outs, thr = E.run(f)
    kinds = set()
    for st, v, l in outs:
        ctx.count('pool_paths')
        bad = lambda k, t: ctx.violation('acquireBuffer: ' + k, t, loc_of(f), trace_lines(st))
        a = [e for e in st.tr if e[0] == 'assign-handle']
        acq = [e for e in st.tr if e[0] == 'acquire']
        new = [e for e in st.tr if e[0] == 'new[]']
        if len(a) != 1:
            bad('assignments', 'the handle is given %d buffers' % len(a))
            continue
        data, size, src = a[0][2]
        if size not in argval(f, si[0]):
            bad('size', 'the handle is not given the size asked for: %s' % pp(size))
        if data[0] == 'buf':
            kinds.add('pool')
            if src != data[1]:
                bad('source', 'the buffer of one source is to be given back to another: %s' % pp(src)[:100])
            at, p = E.atom_lt(('bufsize', data[1]), argval(f, si[0])[0])
            d = E.decide(st, at)
            if d is None or (d == p):
                bad('too small', 'a buffer is handed out from a source whose buffers may be smaller than asked for')
            if len(acq) != 1:
                bad('lost', 'a buffer is taken from a source and not handed out')
        elif data[0] == 'ptr' and len(new) == 1 and new[0][1] == data:
            kinds.add('heap')
            if src != ('null',):
                bad('source', 'a heap buffer is to be given back to a source')
            dn = lin_add(new[0][2], argval(f, si[0])[0], -1)
            if num(dn) is None or num(dn) < 0:
                bad('too small', 'a heap buffer of another size than asked for is handed out')
            if acq:
                bad('lost', 'a buffer is taken from a source and not handed out')
        else:
            bad('buffer', 'what is handed out is neither a buffer of a source nor a fresh one: %s' % pp(data)[:100])
    ctx.require(kinds == {'pool', 'heap'} or ctx.viol, 'paths of acquireBuffer')
    ctx.done(E)


def census(ctx):
    """copies of handles, and uses of acquire/release elsewhere"""
    defs = {f['id'] for f in ctx.P.functions.values() if f.get('cl') == H and f.get('b')}

    def walk(n, f):
        if isinstance(n, dict):
            k = n.get('k')
            if k == 'ctor' and n.get('cl') == H and len(n.get('a') or ()) == 1 and n.get('fn') not in defs:
                ctx.violation('copied in ' + fn_key(f), 'a handle is copied member by member: two owners', loc_of(f, n.get('l')))
            if k == 'call' and n.get('cl') == H and n.get('op') == '=' and n.get('fn') not in defs:
                ctx.violation('copied in ' + fn_key(f), 'a handle is assigned member by member: two owners', loc_of(f, n.get('l')))
            if k == 'call' and n.get('cl') == S:
                nm = str(n.get('qn', '')).rsplit('::', 1)[-1]
                ctx.count('source_calls')
                if nm == 'release' and f.get('cl') != H or nm == 'acquire' and f.get('cl') != PL:
                    ctx.violation('%s in %s' % (nm, fn_key(f)), 'a buffer is taken or given back past its handle', loc_of(f, n.get('l')))
            for x in n.values():
                if isinstance(x, (dict, list)):
                    walk(x, f)
        elif isinstance(n, list):
            for x in n:
                walk(x, f)
    for f in ctx.P.functions.values():
        if f.get('b') and 'libamqpprox/' in f['file']:
            walk(f['b'], f)
            ctx.count('functions_scanned')
