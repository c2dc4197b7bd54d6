"""Exploration of event-driven code: every registered completion handler is
analysed as a further entry point, carrying the typestate that held where it
was registered (and nothing else: all memory is unknown when it runs)."""
from absint import *
from tab import EffectCfg, field_of
from pp import pp


def canon(v, depth=0):
    """captured values, reduced to what identifies a handler"""
    if v[0] == 'clos':
        return ('clos', v[1], tuple((d, 'copy' if m == 'copy' else m, canon(x, depth + 1) if m == 'copy' else x) for d, m, x in v[2]), v[3])
    if v[0] == 'pbind':
        return ('pbind', canon(v[1]), tuple(canon(b) for b in v[2]), v[3])
    if v[0] in ('int', 'enum', 'null', 'fn', 'ph', 'str', 'keep'):
        return v
    if v == ('ptr', ('obj', 'this')) or v[:2] == ('sym', 'self'):
        return v
    return ('cap', kindof(v))


def kindof(v):
    if v[0] in ('call', 'mk'):
        return v[1] if isinstance(v[1], str) else v[0]
    return v[0]


def find_funcs(v, out=None):
    """function values inside a value"""
    if out is None:
        out = []
    if isinstance(v, tuple):
        if v and v[0] in ('clos', 'pbind', 'fn'):
            out.append(v)
            return out
        for x in v:
            if isinstance(x, tuple):
                find_funcs(x, out)
    return out


class Entry:
    __slots__ = ('f', 'kind', 'ts', 'site', 'parent')

    def __init__(self, f, kind, ts, site, parent=None):
        self.f, self.kind, self.ts, self.site, self.parent = f, kind, ts, site, parent

    def name(self, P):
        f = self.f
        if f[0] == 'clos':
            for i in f[1]:
                if i in P.functions:
                    fn = P.functions[i]
                    return 'handler of %s at %s:%s' % (self.kind.rsplit('::', 1)[-1], fn['file'], fn['l'])
        if f[0] == 'fn':
            return f[2].replace('Bloomberg::amqpprox::', '')
        return 'handler of %s' % self.kind


class ContCfg(EffectCfg):
    """subclass and override: inline(), boundary(), carry()"""
    cont_event = False

    def __init__(self):
        self.pending = []
        self.current = None
        self.sync = ('std::for_each', 'std::any_of', 'std::find_if', 'std::all_of', 'std::none_of', 'std::count_if',
                     'std::transform', 'std::remove_if', 'std::sort', 'std::visit', 'std::copy_if')

    def init_state(self, eng, st):
        pass

    def carry(self, eng, st, kind):
        return st.ts

    def register(self, eng, st, c, v, idx):
        if eng.quiet:
            return
        for f in find_funcs(v):
            if f[0] == 'fn' and f[1] not in eng.P.functions:
                continue
            self.pending.append(Entry(canon(f), c.bqn, self.carry(eng, st, c.bqn),
                                      (c.fr.fn['qn'], c.fr.fn['file'], c.line), self.current))

    def on_call(self, eng, st, c):
        r = super().on_call(eng, st, c)
        if c.node.get('k') == 'ctor' and c.node.get('cm'):
            return r
        if r is not None and not isinstance(r, St):
            # functions handed to a boundary call
            k = self.funcs(eng, st, c)
            if k and self.cont_event:
                return [(x[0].emit('cont', c.bqn, k),) + tuple(x[1:]) for x in r]
            return r
        fn = eng.P.functions.get(c.fn)
        inl = fn is not None and fn.get('b') and not (c.virt and eng.overriders.get(c.fn)) and eng.inline_ok(fn, c.fr)
        libfn = c.bqn.startswith('std::') and (c.bqn in self.sync or c.name in (
            'move', 'forward', 'bind', 'make_shared', 'make_unique', 'function', 'make_pair', 'ref', 'operator=', 'operator()', 'swap', 'shared_ptr', 'operator bool'))
        if not inl and not libfn and c.name not in ('bind_front_handler', 'operator()', 'bind_executor'):
            s = r if isinstance(r, St) else st
            k = self.funcs(eng, s, c)
            if k and self.cont_event:
                return s.emit('cont', c.bqn, k)
        return r

    def funcs(self, eng, st, c):
        out = []
        for i, v in enumerate(c.args):
            if v[0] in ('clos', 'pbind', 'fn', 'rec', 'mk', 'list', 'tuple'):
                self.register(eng, st, c, v, i)
                out += find_funcs(v)
        return tuple(out)

    def on_store(self, eng, st, loc, val, node, fr):
        st = super().on_store(eng, st, loc, val, node, fr)
        if val[0] in ('clos', 'pbind') and (loc[0] == 'fld' or loc[0] in ('mat', 'elem')) and not eng.quiet:
            r = loc
            while r[0] == 'fld':
                r = r[1]
            if r[0] not in ('var', 'tmp'):
                self.pending.append(Entry(canon(val), 'stored:' + str(loc[2] if loc[0] == 'fld' else '?'),
                                          self.carry(eng, st, 'stored'),
                                          (fr.fn['qn'] if fr else '', fr.fn['file'] if fr else '', node.get('l') if node else 0), self.current))
        return st


def explore(eng, entries, limit=4000):
    """entries: list of Entry; -> list of (entry, outcomes, thrown)"""
    seen = set()
    work = list(entries)
    out = []
    cfg = eng.cfg
    while work:
        e = work.pop(0)
        k = (e.f, e.ts, e.kind)
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > limit:
            raise Overflow('too many handlers')
        cfg.pending = []
        cfg.current = e
        res = run_value(eng, e)
        out.append((e,) + res)
        work += cfg.pending
    return out


def run_value(eng, e):
    st = St()
    st.ts = e.ts
    eng.cfg.init_state(eng, st)
    f = e.f
    if f[0] == 'fn':
        fn = eng.P.functions.get(f[1])
        if fn is None or not fn.get('b'):
            return [], []
        return eng.run(fn, st=st)
    if f[0] == 'clos':
        fn = None
        for i in f[1]:
            g = eng.P.functions.get(i)
            if g and g.get('b'):
                fn = g
                break
        if fn is None:
            return [], []
        this = f[3] if f[3] is not None else None
        caps = []
        for d, m, v in f[2]:
            if m == 'ref':
                # memory of the registering frame: unknown
                caps.append((d, 'copy', ('cap', 'ref')))
            else:
                caps.append((d, m, v))
        return eng.run(fn, this=this, st=st, caps=tuple(caps))
    if f[0] == 'pbind':
        target, bound, front = f[1], f[2], f[3]
        if target[0] == 'fn':
            fn = eng.P.functions.get(target[1])
            if fn is None or not fn.get('b'):
                return [], []
            bs = list(bound)
            this = ('ptr', ('obj', 'this'))
            if fn.get('m') and not fn.get('st') and bs:
                t = bs.pop(0)
            args = []
            for i, p in enumerate(fn['p']):
                v = ('arg', p['n'] or str(i))
                eng.set_range(v, p)
                args.append(v)
            n = 0
            for i, b in enumerate(bs):
                if i < len(args) and b[0] != 'ph':
                    args[i] = b if b[0] in ('int', 'enum', 'str', 'null', 'clos', 'pbind', 'keep') else ('arg', fn['p'][i]['n'])
            return eng.run(fn, this=this, args=args, st=st)
        if target[0] == 'clos':
            return run_value(eng, Entry(target, e.kind, e.ts, e.site, e.parent))
    return [], []
